import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
I=["inputs"];IH=["inputs","histories"]
p("P01","Bit-level buffers read back exactly what was written",
 "Any sequence of bit-field, integer and byte-run writes into a bit buffer produces the big-endian, most-significant-bit-first encoding of those values, and reading the same widths back from it (or from any other bytes) returns the same values in order, whatever the alignment. At every point the reported number of bits and bytes left equals what has not been consumed yet, and asking for more than is left is refused without consuming anything.",
 I,"all field widths 1..32 (writes up to 64), alignments, values, interleavings of bit, integer, byte-run and skip operations, buffer sizes",
 "The tests exercise a few widths at a few alignments; a wrong mask or carry shows only for one width/alignment/value combination.",
 ["src/io/sps_io_bits.cpp","src/io/sps_io_bits.hpp"],[("BitContext read/write",'src/io/sps_io_bits.cpp')])
p("P02","Buffered byte reading delivers the stream exactly, however it is fragmented",
 "A buffered byte reader over any source returns the source's bytes in order, none lost or repeated, with multi-byte integers decoded big-endian, regardless of how the source splits them, of the buffer's capacity and of whether the buffer may be rewound. A request that can never fit the buffer, or that needs bytes past the end of the source, is refused with an error and never overruns the buffer; the byte writer encodes the same layout and refuses what does not fit.",
 IH,"all byte streams, fragmentations, buffer capacities, rewind modes and sequences of acquire/read/skip operations",
 "The tests use one fragmentation and one capacity; the rewind and refill boundaries depend on where reads land.",
 ["src/io/sps_io_bytes.cpp","src/io/sps_io_bytes.hpp"],[("BytesReader::acquire / AVBuffer::rewind","src/io/sps_io_bytes.cpp"),("BytesWriter","src/io/sps_io_bytes.cpp")])
p("P03","FLV output is well-formed and preserves every packet",
 "For any sequence of audio, video and script packets, the FLV writer emits a header and a series of tags that an independent FLV reader accepts (tag sizes, back-pointers, 24+8-bit timestamps, composition offsets all consistent), and the FLV reader gets the same packets back: kind, payload, decode time, presentation time, codec and frame flags, in order. Enabling output filters changes only what the filter is meant to change.",
 I,"all packet sequences: payload sizes, types, timestamps over the whole 32-bit range, composition offsets, flags, read fragmentations",
 "Tests transmux one sample file; field-boundary values (24-bit overflow, negative offsets, empty payloads) never occur in it.",
 ["src/avformat/sps_avformat_flvenc.cpp","src/avformat/sps_avformat_flvdec.cpp","src/avformat/sps_avformat_flv.cpp"],[("FlvAVMuxer::write_packet","src/avformat/sps_avformat_flvenc.cpp"),("FlvDemuxer::read_packet","src/avformat/sps_avformat_flvdec.cpp")])
p("P04","FLV reading is memory-safe and exact up to the first damage",
 "Whatever bytes an FLV publisher sends and however they are split, reading them touches no memory outside its buffers and ends with an error or end of stream. Every complete well-formed tag before the first damaged one is delivered intact, and the outcome does not depend on the fragmentation.",
 I,"all byte strings, biased to mutated, truncated and size-corrupted FLV streams, in all fragmentations",
 "Tests read one undamaged file; memory errors need specific inconsistent sizes.",
 ["src/avformat/sps_avformat_flvdec.cpp","src/io/sps_io_bytes.cpp"],[("FlvDemuxer::read_packet size handling","src/avformat/sps_avformat_flvdec.cpp")])
p("P05","A viewer joining late gets a decodable start and then everything",
 "For every history of packets put into a live stream's group-of-pictures cache, a viewer that joins at any moment receives first the latest script data, audio configuration and video configuration seen so far (those that exist, in that order), then the most recent keyframe and every media packet after it in arrival order, and nothing older. From then on it receives every packet put into the stream exactly once and in order.",
 ["histories"],"all packet histories and all join points, several viewers at once, with viewers draining at arbitrary moments",
 "The cache test puts two plain buffers; the guarantee concerns every interleaving of configuration, keyframe, delta packets and joins.",
 ["src/avformat/sps_avformat_cache.cpp","src/cache/sps_cache.hpp","src/module/stream/sps_stream.cpp"],[("AVGopCacheStream::put/dump","src/avformat/sps_avformat_cache.cpp"),("AVDumpCacheStream","src/avformat/sps_avformat_cache.cpp")])
p("P06","Every live subscriber gets every item once, in order, and only while joined",
 "For every history of subscribing, cancelling, disappearing without cancelling, and publishing, each item is delivered exactly once and in publication order to every subscriber that is joined and alive at that moment, and to no one else. A subscriber that leaves or disappears never affects what the others receive, and joining twice does not duplicate delivery.",
 ["histories"],"all interleavings of join, cancel, destroy and publish over several subscribers and publishers; nested relay chains",
 "The only test has two subscribers that never leave.",
 ["src/sys/sps_sys_sync.hpp","src/cache/sps_cache.hpp"],[("Publisher::publish/sub/cancel","src/sys/sps_sys_sync.hpp"),("CacheStream","src/cache/sps_cache.hpp")])
p("P07","One publisher per stream; the name is freed when it ends",
 "At any moment at most one publisher owns a stream name: while it is publishing, a second publisher of the same name is rejected and the first is undisturbed, and other names are unaffected. When a publisher ends for any reason the name becomes free again, players of a name without a source are refused, and players attached while it was live get its packets.",
 ["histories","schedules"],"all histories of publish attempts, publisher endings (clean or damaged), player joins and leaves over several stream names and hosts, interleaved by the coroutine scheduler",
 "No test runs publishers and players at all.",
 ["src/module/stream/sps_stream_handler.cpp","src/module/stream/sps_stream_cache.cpp","src/module/stream/sps_stream.cpp"],[("StreamHandler / publish registration","src/module/stream/sps_stream_handler.cpp"),("StreamCache","src/module/stream/sps_stream_cache.cpp")])
p("P08","HTTP header reading takes exactly the header and reports it faithfully",
 "For every syntactically valid HTTP/1.x request or response header, however the transport fragments it, reading it consumes exactly the bytes up to and including the empty line, so not one byte of the body or of the next message is taken, and reports the method or status, the target's host, path and query, and every header name and value in order. A header that ends early, is malformed or exceeds the size limit is refused with an error, without touching memory outside its buffer.",
 I,"all valid request and response headers (methods, targets, header sets), bodies following them, fragmentations; plus truncated, oversized and garbage input",
 "Tests parse two fixed headers delivered in one piece.",
 ["src/module/http/sps_http_parser.cpp"],[("HttpParser::parse_header","src/module/http/sps_http_parser.cpp")])
p("P09","HTTP request bodies are delivered exactly and messages never bleed together",
 "For any request with a Content-Length or chunked body, the body handed to the application is byte-for-byte what the client sent, then an end-of-body indication, for every chunking, transport fragmentation and read size. The bytes after the body stay unread, so further requests on the same connection are parsed correctly; a body cut short is reported as an error.",
 I,"all bodies, chunk splits, fragmentations, application read sizes, and trains of pipelined requests",
 "No test reads a request body.",
 ["src/module/http/sps_http_socket.cpp","src/module/http/sps_http_parser.cpp"],[("HttpRequestSocket body reading","src/module/http/sps_http_socket.cpp")])
p("P10","HTTP responses are framed so a client recovers exactly what was written",
 "For any status, header set and sequence of body writes, the bytes put on the wire form one valid HTTP/1.1 response from which an independent client recovers that status, those headers and exactly the written body: with a declared length the length header matches it, without one each write is sent as a correct chunk.",
 I,"all statuses, headers, body write sequences and sizes, both framing modes",
 "No test writes a response.",
 ["src/module/http/sps_http_socket.cpp"],[("HttpResponseSocket::write_header / write","src/module/http/sps_http_socket.cpp")])
p("P11","The HTTP client returns exactly the response the server sent",
 "When the HTTP client fetches a URL, the server receives a well-formed request carrying the method, target, host, headers and body asked for, and the client reports the status and headers sent and delivers exactly the response body followed by end of stream, for declared-length, chunked and close-delimited bodies and every fragmentation. A request or response body cut short is reported as an error rather than passed off as a complete one.",
 I,"all URLs, methods, statuses, request and response bodies, chunkings, TCP fragmentations and client read sizes",
 "The URL tests need the internet and are skipped.",
 ["src/io/url/sps_io_url_http.cpp","src/io/url/sps_io_url.cpp"],[("HttpUrlProtocol::open/read","src/io/url/sps_io_url_http.cpp")])
p("P12","The reverse proxy relays requests and responses unchanged",
 "Through a proxying host, the upstream receives each client request with the same method, target and headers, and the client receives the upstream's status, headers and exact body, for any body size and framing. On a persistent connection successive requests are answered in order with their own responses, and a host that is not configured, or an upstream that cannot be reached, yields an error response instead of someone else's data.",
 IH,"all trains of requests over one or more connections, upstream framings and body sizes, host headers",
 "No test runs the server.",
 ["src/module/http/sps_http_proxy_phase_handler.cpp","src/module/http/sps_http_phase_handler.cpp","src/module/http/sps_http_server.cpp"],[("HttpProxyPhaseHandler","src/module/http/sps_http_proxy_phase_handler.cpp")])
p("P13","URLs decompose into exactly their parts",
 "Parsing a URL built from any scheme, host, optional port, path and query yields those parts: the given port or the scheme's default, the path, the full query string and each name/value pair in order, the file extension of the last path segment, and the request target to be sent; a local file's URL yields its path. Strings that are not URLs are refused. The header fields kept with a request are found, replaced and removed whatever the case of their names, and say rightly whether and how a body is framed.",
 I,"all schemes, hosts, ports, paths with dots and empty segments, query strings including empty and valueless parameters; all histories of adding, removing and looking up header fields",
 "Tests parse one URL.",
 ["src/io/url/sps_io_url.cpp"],[("RequestUrl::parse_url","src/io/url/sps_io_url.cpp")])
p("P14","Configuration files mean what they say, in any layout, or are refused",
 "For any tree of configuration blocks and directives, loading its text yields exactly the configured values, defaults for everything not mentioned, and the same nesting and order of blocks, independent of indentation, blank lines and comments. A file with a missing or surplus brace or an unterminated directive is refused rather than partly applied.",
 ["inputs","configurations"],"all block trees, directive values of every type, whitespace and comment layouts, and structural damage",
 "The single test loads one flat block.",
 ["src/module/sps_module.cpp","src/module/sps_module_opt.cpp"],[("IModule::parse / init_conf","src/module/sps_module.cpp"),("opt_set","src/module/sps_module_opt.cpp")])
p("P15","Requests are routed to the most specific configured host",
 "For every set of configured hosts, a name is served by the host configured with exactly that name, otherwise by the wildcard covering its parent domain, otherwise by the default host, otherwise by none; the order of configuration is irrelevant. Configuring the same name or default twice, or an invalid wildcard, is refused, and combining two host sets gives the same answers as configuring all of them in one.",
 ["configurations","inputs"],"all sets and orders of exact, wildcard and default hosts, all names looked up, merges of sets",
 "No test covers routing.",
 ["src/module/host/sps_host_module.cpp"],[("HostModulesRouter","src/module/host/sps_host_module.cpp")])
p("P16","H.264 access units become FLV video packets with no NAL lost or altered",
 "For any H.264 access unit, start-code or length delimited, converting it yields a configuration packet carrying the latest sequence and picture parameter set seen so far whenever one occurs, and then each picture slice, IDR and SEI NAL unit exactly once, in order, byte-for-byte, correctly length-prefixed, marked key for IDR pictures and delta otherwise, with the unit's decode and presentation times. Malformed input is refused or ignored without reading outside the buffer.",
 I,"all NAL sequences, types, sizes, 3- and 4-byte start codes, payloads with near-start-code patterns; plus arbitrary bytes",
 "Only one captured stream is ever converted in the tests.",
 ["src/avcodec/sps_avcodec_h264_parser.cpp"],[("H264AVCodecParser / NALUParser","src/avcodec/sps_avcodec_h264_parser.cpp")])
p("P17","ADTS audio becomes FLV AAC packets with no frame lost or altered",
 "For any sequence of ADTS frames, conversion yields one configuration packet describing profile, sampling rate and channels when the format first appears or changes, and every raw frame exactly once, in order, byte-for-byte, with the given times. Truncated or inconsistent frames are refused without reading outside the buffer.",
 I,"all ADTS parameter combinations, with and without CRC, frame sizes and counts, parameter changes; plus arbitrary bytes",
 "Only one captured stream is ever converted in the tests.",
 ["src/avcodec/sps_avcodec_aac_parser.cpp"],[("AacAVCodecParser / ADTS decode","src/avcodec/sps_avcodec_aac_parser.cpp")])
p("P18","MPEG-TS demuxing recovers every frame with its timestamps",
 "For any valid transport stream carrying H.264 and AAC, however the elementary units are split over packets, padded, interleaved and accompanied by repeated tables (also ones spread over several packets, sharing packets with other sections, sent twice, or not yet applicable), clock references, packets without payload, duplicates and announced counter discontinuities, each unit of whole frames that starts after the tables and is followed by a later one of its stream comes out once, in order, byte-for-byte, with its 33-bit decode and presentation times converted to milliseconds. Units with and without a declared length are treated alike, up to 1 MiB. When packets inside a unit are lost, that unit is dropped and the following ones come out unharmed; a table with packets lost counts for nothing until a whole one arrives.",
 I,"all multiplexes: PIDs, adaptation fields, stuffing, table repetition, frame sizes, timestamp presence and values, stream interleavings",
 "Tests play back one captured file through UDP at best; corner layouts are absent.",
 ["src/avformat/sps_avformat_ts.cpp","src/avformat/sps_avformat_tsdec.cpp"],[("TsPesProgram::decode / TsPesContext","src/avformat/sps_avformat_ts.cpp"),("TsDemuxer","src/avformat/sps_avformat_tsdec.cpp")])
p("P19","No transport stream input can corrupt memory or hang the demuxer",
 "Whatever bytes arrive as a transport stream, demuxing them touches no memory outside its buffers, allocates no more than one unit buffer of 1 MiB for each declared stream besides the frames it puts out, and terminates with packets or an error.",
 I,"all byte strings, biased to mutated valid streams: adaptation lengths, section lengths, descriptor lengths, header lengths, PIDs, counters",
 "Tests use only valid streams.",
 ["src/avformat/sps_avformat_ts.cpp","src/avformat/sps_avformat_tsdec.cpp"],[("length handling in adaptation field, PSI, PES","src/avformat/sps_avformat_ts.cpp")])
p("P20","RTP payloads reassemble to the frames that were sent",
 "For any series of H.264 NAL units (up to 1 MiB each), AAC access units or transport-stream packets packetised into RTP datagrams by the standard modes (single unit, STAP-A/B, MTAP16/24, FU-A/B; one or several whole access units; groups of 188-byte packets), with any header extension, contributing sources, padding, marker and sequence number, and with RTCP packets in between, the receiver outputs each picture, SEI and audio unit once, in order and byte-for-byte with the RTP timestamp (plus its offset in MTAP) in milliseconds, and before each picture the latest parameter sets received. Units of which a datagram was lost are discarded whole, without disturbing later units.",
 I,"all unit sizes, fragmentations, aggregations, RTP header options, lost fragments",
 "Tests only wait on a UDP port that nobody sends to.",
 ["src/avformat/sps_avformat_rtpdec_h264_hevc.cpp","src/avformat/sps_avformat_rtpdec_aac.cpp","src/avformat/sps_avformat_rtpdec_ts.cpp","src/avformat/sps_avformat_rtpdec.cpp"],[("H264RtpDecoder","src/avformat/sps_avformat_rtpdec_h264_hevc.cpp"),("AacRtpDecoder","src/avformat/sps_avformat_rtpdec_aac.cpp")])
p("P21","No RTP or RTCP datagram can corrupt memory or stop the receiver",
 "Whatever datagrams arrive, in whatever order, decoding them as RTP or RTCP touches no memory outside the datagram and its own buffers, keeps no more than one unit of 1 MiB, terminates, and a valid single-unit datagram that follows is still delivered.",
 IH,"all sequences of datagrams, biased to mutated valid RTP and RTCP",
 "Tests never deliver a datagram.",
 ["src/avformat/sps_avformat_rtpdec.cpp","src/avformat/sps_avformat_rtpdec_rtcp.cpp","src/avformat/sps_avformat_rtpdec_h264_hevc.cpp"],[("RtcpDecoder, RtpPayloadHeader","src/avformat/sps_avformat_rtpdec_rtcp.cpp")])
p("P22","Files and memory read back exactly, by bytes or by lines",
 "Whatever content a file or memory source holds, reading it in pieces of any sizes returns its bytes in order and then end of file, reading it by lines returns exactly its lines without their terminators and counts them, and bytes written to a file (fresh, truncated or appended) or memory are what is read back; a file URL opens the file it names, and a write that is not carried out is reported.",
 I,"all contents (empty lines, missing final newline, long lines, binary), read sizes, mixtures of byte and line reads, write modes",
 "Tests read one sample file.",
 ["src/io/sps_io_memory.cpp","src/io/url/sps_io_url_file.cpp"],[("read_line/read/read_fully","src/io/sps_io_memory.cpp"),("FileURLProtocol","src/io/url/sps_io_url_file.cpp")])
p("P23","RTMP commands are understood exactly or refused safely",
 "For any RTMP connect, createStream, play, publish, releaseStream or FCPublish command of AMF0 values (message type 20, or 17 with its format byte), decoding reports the command, transaction, application, address, stream name with parameters and publish mode that the peer sent. Commands lacking a required field or of the wrong type, commands of other names, and arbitrary AMF0 bytes, are refused or ignored without touching memory outside the message.",
 I,"all command messages: names, transaction numbers, object properties in any order, string values; truncations and mutations",
 "The RTMP tests cannot be built here and sample a single session.",
 ["src/avformat/sps_avformat_librtmp_packet.cpp"],[("RtmpPacketDecoder::decode","src/avformat/sps_avformat_librtmp_packet.cpp")])
p("P24","The TLS layer is a transparent, reliable byte stream",
 "Once a TLS client and server of this project have shaken hands over any transport fragmentation, every byte either side writes is read by the other exactly once and in order, for all write sizes, read sizes and directions of traffic, and exact-length reads return exactly that many bytes in place. Bytes damaged or cut off in transit are never delivered as data, both roles interoperate with any standard TLS 1.2 peer, and a server choosing certificates by requested server name presents the one of that name, otherwise its own certificate if it has one, and otherwise refuses.",
 ["inputs","schedules"],"all transport fragmentations, write and read size sequences, traffic directions",
 "The TLS tests need the internet and are skipped.",
 ["src/sys/st/io/sps_sys_st_io_ssl.cpp"],[("StSSLSocket","src/sys/st/io/sps_sys_st_io_ssl.cpp")])
p("P25","TCP, UDP and SRT endpoints deliver data exactly and honour timeouts",
 "Over a TCP or SRT connection every byte written is read by the peer once and in order, exact-length reads fill the buffer completely and report its size, an orderly close is seen as end of stream only after all data, and on TCP a connection that cannot be made and a read or write that cannot proceed fail with an error after the configured time and not before, while other coroutines go on. A port is listened on exactly when it is free or shared by agreement, and is free again when given up. A UDP datagram goes to the address given and arrives whole as one read with its sender's address; a UDP server gives each client address its own session, which gets that client's datagrams in order and answers to it alone.",
 ["inputs","schedules"],"all write and read size sequences, timings of close, timeouts, several coroutines on one process",
 "Tests send one datagram to nobody.",
 ["src/sys/st/io/sps_sys_st_io_tcp.cpp","src/sys/st/io/sps_sys_st_io_udp.cpp","src/sys/st/io/sps_sys_st_io_srt.cpp","src/io/sps_io_socket.cpp"],[("StTcpSocket","src/sys/st/io/sps_sys_st_io_tcp.cpp"),("StUdpClientSocket","src/sys/st/io/sps_sys_st_io_udp.cpp")])
p("P26","Live streaming over HTTP delivers the published stream to every viewer",
 "When a client publishes an FLV stream to the server by HTTP and viewers fetch it, each viewer receives a valid FLV stream that starts with the configuration and latest keyframe at its join time and then contains every following packet exactly once with identical payload, kind and times, until the publisher ends. Viewers joining, leaving or stalling never alter what the others receive.",
 ["histories","schedules"],"all publisher packet histories, chunkings, numbers of viewers, join and leave times",
 "No test runs the streaming server.",
 ["src/module/http/sps_http_stream_phase_handler.cpp","src/module/stream/sps_stream.cpp","src/module/stream/sps_stream_handler.cpp"],[("HttpStreamPhaseHandler","src/module/http/sps_http_stream_phase_handler.cpp"),("StreamEncoder/StreamDecoder","src/module/stream/sps_stream.cpp")])
p("P27","SRT stream identifiers select the stream and mode they name",
 "For any SRT stream identifier of the form #!::h=HOST/PATH,m=MODE the host, path, query and publish-or-play mode it names are what the server acts on (publishing when no mode is given), with or without a leading srt://, whatever the order of its fields, other fields present, and whether or not the last one is terminated; identifiers without a resource are refused.",
 I,"all field orders, hosts, paths, extensions and modes; unknown fields; malformed identifiers",
 "No test covers SRT.",
 ["src/module/srt/sps_srt_stream_handler.cpp","src/module/srt/sps_srt_server_handler.cpp"],[("stream id parsing","src/module/srt/sps_srt_server_handler.cpp")])
p("P28","Formats and protocols are found only by their own names",
 "A container format or URL protocol is found by exactly the extensions and schemes it was registered for, and by no other string such as a prefix or an extension of one, or by the extension of the address to be read or written; unknown names yield nothing rather than a wrong handler. Registries hand out what was registered last under a key, and every entry once in order of registration.",
 I,"all registered sets and all looked-up names, biased to near misses",
 "Tests look up one name.",
 ["src/avformat/sps_avformat_dec.cpp","src/avformat/sps_avformat_enc.cpp","src/io/url/sps_io_url_protocol.cpp","src/util/sps_util_typedef.hpp"],[("IAVInputFormat::match / IAVOutputFormat::match","src/avformat/sps_avformat_dec.cpp"),("UrlProtocol","src/io/url/sps_io_url_protocol.cpp")])
p("P29","Log lines contain peer-supplied text literally",
 "Any text that ends up in a log line, including percent signs and very long values, appears literally (cut at a fixed length at most) and never makes logging crash or read other memory.",
 I,"all strings, including format directives, lengths around and beyond the line limit, embedded control characters",
 "Tests log only benign text.",
 ["src/log/sps_log.cpp"],[("ConsoleLog::printf","src/log/sps_log.cpp")])
p("P30","Servers and hosts combine across configuration blocks as written",
 "For every configuration of several http servers, hosts and global hosts, each listening port serves exactly the hosts configured for it, in its own block or in another block with the same port, plus the global hosts, and conflicts are reported as errors rather than silently dropping a host.",
 ["configurations"],"all sets of server blocks with equal and different ports, hosts, and global hosts",
 "No test loads a server configuration.",
 ["src/module/server/sps_server_module.cpp","src/module/http/sps_http_module.cpp","src/module/host/sps_host_global_module.cpp"],[("ServerModule::merge / post_sub_module","src/module/server/sps_server_module.cpp")])
p("P31","Late viewers of the raw transport-stream relay get tables, then current unit on",
 "For every history of transport packets recorded by the relay, a viewer joining at any moment gets the latest program association and map packets (those seen so far, in that order), then the packets since the most recent unit start, then every later packet exactly once and in order; what is kept for late viewers never grows past the current unit.",
 ["histories"],"all histories of table, unit-start and continuation packets, joins, reads and leaves",
 "No test covers the relay cache.",
 ["src/avformat/sps_avformat_tsdec.cpp","src/avformat/sps_avformat_cache.cpp","src/avformat/sps_avformat_packet.cpp"],[("TsCache::on_packet","src/avformat/sps_avformat_tsdec.cpp"),("MepegtsCacheStream::put","src/avformat/sps_avformat_cache.cpp")])
p("P32","Edge hosts pull each stream once and serve it to all their viewers",
 "An edge host asked for a stream it does not have fetches it from its configured source (the address of its upstream or of pass_proxy, with the same path and query), with never more than one pull of a name at a time however many viewers ask for it meanwhile, and every viewer then gets the stream as a viewer of a published one does. When the source cannot be reached, refuses or has an unusable format, waiting viewers are told it is not found and a later viewer causes a new attempt; when the source ends, the name is freed and can be pulled again. Hosts that are not edges never pull, and a failing stream leaves the others untouched.",
 ["histories","schedules","fault_sequences"],"all histories of viewers (alone or at the same moment), answers, refusals and failures of the source, packets, damaged and clean ends, leaving and stalled viewers, timeouts",
 "No test runs an edge.",
 ["src/module/stream/sps_stream_edge.cpp","src/module/stream/sps_stream_handler.cpp","src/module/host/sps_host_module.cpp"],[("StreamEdge / StreamEdgeEnter","src/module/stream/sps_stream_edge.cpp"),("StreamHandler::play","src/module/stream/sps_stream_handler.cpp")])
p("P33","SRT publishers reach SRT players byte for byte and HTTP viewers frame for frame",
 "A transport stream of H.264 and AAC published over SRT is relayed to every SRT player: latest tables, the packets of the current unit, then every further payload packet of these streams exactly once and in order; HTTP viewers of the same name get the frames as FLV as of any published stream. A name has one publisher at a time across SRT and HTTP; further ones are rejected without disturbing it. Players of a name without a publisher are refused, and when the publisher ends or sends something that is no transport stream the name is free again. Players leaving or stalling never affect others.",
 ["histories","schedules"],"all histories of SRT and HTTP publishers and viewers, transport stream contents and fragmentations, clean and damaged ends",
 "No test runs the SRT server.",
 ["src/module/srt/sps_srt_stream_handler.cpp","src/avformat/sps_avformat_tsdec.cpp","src/module/stream/sps_stream_cache.cpp"],[("SrtServerStreamHandler","src/module/srt/sps_srt_stream_handler.cpp")])
p("P34","With the FFmpeg formats every viewer gets exactly the published frames",
 "With the container formats backed by FFmpeg, which is what a default build registers, an H.264 and AAC stream published as FLV by HTTP (video, audio or both) becomes available under its name, and every FLV viewer gets the codec configuration, the frames from the latest key frame at its joining on, and then every further frame exactly once, in order, with identical payload, kind and times. A name has one publisher at a time, is free again when it ends, viewers of nothing are told so, and joining, leaving or stalling viewers never affect others.",
 ["histories","schedules"],"all histories of publishers, frames, fragmentations, joins, leaves, stalls and pauses",
 "No test runs the FFmpeg-backed formats.",
 ["src/avformat/sps_avformat_ffmpeg_dec.cpp","src/avformat/sps_avformat_ffmpeg_enc.cpp","src/avformat/sps_avformat_ffmpeg.cpp","src/module/stream/sps_stream_handler.cpp"],[("FFmpegAVDemuxer::read_packet","src/avformat/sps_avformat_ffmpeg_dec.cpp"),("FFmpegAVMuxer::write_packet","src/avformat/sps_avformat_ffmpeg_enc.cpp")])
p("P35","No publication and no requested format harms the server or other streams",
 "Whatever a publisher sends to the FFmpeg-backed formats (damaged FLV or MPEG-TS, unusable or missing times, elementary streams, playlists, concatenation lists, session descriptions, arbitrary bytes) and whatever format a viewer asks for by its extension, the server goes on running, opens no file and no network connection on their behalf, other publishers and viewers are not disturbed, the viewer of a healthy stream gets every frame, a publisher who ends is released, and memory used for a publication and its viewers is given back.",
 ["inputs","histories"],"all published bytes, biased to damaged media and to formats that refer to other resources; all extensions FFmpeg knows an output format for",
 "No test runs the FFmpeg-backed formats.",
 ["src/avformat/sps_avformat_ffmpeg_dec.cpp","src/avformat/sps_avformat_ffmpeg_enc.cpp"],[("FFmpegAVMuxer::init / write_packet","src/avformat/sps_avformat_ffmpeg_enc.cpp"),("FFmpegAVDemuxer::init / free_ffmpeg_ctx","src/avformat/sps_avformat_ffmpeg_dec.cpp")])
p("P36","Streams are carried from one container format to another without loss",
 "An H.264 and AAC stream published as FLV, MPEG-TS, fragmented MP4 or Matroska, with its streams in any order, can be watched as FLV, MPEG-TS or Matroska by any number of viewers joining at any moment, as far as the output format can carry its streams: what a viewer gets, read back, is for each of video and audio a gapless run of the published frames with their payload, key frame marks and times, from the latest key frame at its joining to the end of what was published (less what the muxer still gathers).",
 ["inputs","histories"],"all pairs of container formats, orders of streams, frame sequences, fragmentations and joining times",
 "No test runs the FFmpeg-backed formats.",
 ["src/avformat/sps_avformat_ffmpeg_dec.cpp","src/avformat/sps_avformat_ffmpeg_enc.cpp","src/avformat/sps_avformat_cache.cpp"],[("FFmpegAVMuxer::on_av_stream / write_packet","src/avformat/sps_avformat_ffmpeg_enc.cpp"),("FFmpegAVDemuxer::read_packet","src/avformat/sps_avformat_ffmpeg_dec.cpp")])
p("P37","HTTPS servers present the right certificate and serve every correct client",
 "For every configuration of https servers, hosts and certificates, a client gets the certificate of the host it names, else the server's own, else is refused, and then has each of its requests routed and answered exactly as over plain HTTP, on one connection or several. Clients that stall in their handshake, leave at any point, or send garbage before, during or after the handshake never affect the others.",
 ["configurations","histories","fault_sequences"],"all sets of servers, hosts and certificates, requested names, request sequences, fragmentations, stalls, damaged and abandoned connections",
 "No test starts an https server.",
 ["src/sys/st/io/sps_sys_st_io_ssl.cpp","src/module/server/sps_server_module.cpp","src/module/server/sps_server.cpp","src/io/sps_io_socket.cpp"],[("StSSLServerSocket / StSSLAcceptor","src/sys/st/io/sps_sys_st_io_ssl.cpp"),("Server::listen / handler","src/module/server/sps_server.cpp"),("ServerModule::install","src/module/server/sps_server_module.cpp")])
p("P38","An SRT server relays each publication to its players over real connections",
 "For every history of SRT peers connecting to a configured server, a peer is taken as publisher or player of the stream its identifier names on the host it names (exact, wildcard or global); each player gets the transport stream packets of that publication from the latest tables and unit start at its joining on, once and in order, whatever the sizes of the messages, until the publication ends. A second publisher of a live name, peers asking for nothing there is, stray datagrams, stalled players and peers that leave never alter what others get; every connection is accepted, and an ended name can be published again.",
 ["histories","schedules","fault_sequences"],"all histories of publishers, players, endings, refused peers, stray datagrams; stream identifiers; message sizes",
 "No test opens an SRT connection.",
 ["src/sys/st/io/sps_sys_st_io_srt.cpp","src/module/srt/sps_srt_stream_handler.cpp","src/module/srt/sps_srt_server_handler.cpp","src/module/srt/sps_srt_module.cpp"],[("SrtStDispatch::st_srt_epoll / handler","src/sys/st/io/sps_sys_st_io_srt.cpp"),("st_srt_accept","src/sys/st/io/sps_sys_st_io_srt.cpp"),("SrtServerStreamHandler","src/module/srt/sps_srt_stream_handler.cpp")])
p("P39","RTP and RTCP headers decode to exactly the fields that were sent",
 "For every RTP header (with any contributing sources and extension) and every RTCP sender report, receiver report and source description, decoding yields each field as sent - numbers of all widths, report blocks with their sources, description texts - and consumes exactly that header or packet, leaving what follows in the datagram untouched. One cut short at any byte is refused.",
 I,"all field values, numbers of sources, blocks and items, extension and text lengths, all cuts",
 "No test decodes RTP.",
 ["src/avformat/sps_avformat_rtp.cpp","src/avformat/sps_avformat_rtpdec_rtcp.cpp"],[("RtpPayloadHeader::decode","src/avformat/sps_avformat_rtp.cpp"),("RtcpSRDecoder / RtcpRRDecoder / RtcpSDESDecoder","src/avformat/sps_avformat_rtpdec_rtcp.cpp")])
p("P40","SRT connections between the project's own client and server carry bytes exactly",
 "For every set of simultaneous connections from the SRT client to an SRT server, each connection is accepted once and reported with its peer's address and port; every byte written by either side is read by the other once and in order, whatever the sizes of writes and reads and with both directions in use at once; a read or write that cannot proceed, or a connection nobody answers, fails with a timeout after the time set and not before while other coroutines go on, and what comes later is still received. A departed peer ends the reads and writes of the other side.",
 ["inputs","histories","schedules"],"all write and read size sequences in both directions, idle times and timeouts, stalled readers, numbers of connections, endings by either side",
 "No test opens an SRT connection.",
 ["src/sys/st/io/sps_sys_st_io_srt.cpp","src/io/sps_io_socket.cpp"],[("SrtStDispatch::st_srt_epoll / handler","src/sys/st/io/sps_sys_st_io_srt.cpp"),("st_srt_connect / st_srt_read / st_srt_write","src/sys/st/io/sps_sys_st_io_srt.cpp"),("ClientSocketFactory::create_ss","src/io/sps_io_socket.cpp")])
p("P41","RTMP sessions publish and play exactly, together with HTTP",
 "For every history of RTMP and HTTP-FLV publishers and players of the same host: handshake, connect, createStream, publish and play are answered as the protocol says, whatever the chunk sizes, chunk streams, header types and extra messages of the client and however its bytes arrive; each player, RTMP or HTTP, gets the codec configuration, the frames since the last key frame and every later frame of the publication once, in order and with their times, however large; a second publisher of a live name, a player of a name that is not published and a host that is not configured are refused; pings are answered with their time; a name can be published again once its publisher has gone.",
 ["histories","schedules","inputs"],"all interleavings of publishers, players, endings, stalls and time; message sizes, chunk sizes and fragmentations",
 "RTMP is not compiled by the test build; its only test needs the internet.",
 ["src/module/rtmp/sps_rtmp_server_handler.cpp","src/module/rtmp/sps_rtmp_stream_handler.cpp","src/avformat/sps_avformat_librtmp.cpp","src/io/url/sps_io_url_rtmp_ffmpeg.cpp"],[("RtmpPreRequest / RtmpPrepareHandler","src/module/rtmp/sps_rtmp_server_handler.cpp"),("RtmpServerStreamHandler::handler","src/module/rtmp/sps_rtmp_stream_handler.cpp"),("FFmpegRtmpUrlProtocol::read / write","src/io/url/sps_io_url_rtmp_ffmpeg.cpp")])
p("P42","No RTMP client can harm the server or the sessions of others",
 "For every byte sequence an RTMP client sends - proper sessions with odd, short, repeated or misplaced messages, broken chunks, damaged bytes, cut at any point - the server neither crashes nor uses memory it does not own nor waits for ever once the client has gone; the name it published is free again, a publisher and player of the same host beside it are served exactly, and the next client is served.",
 ["inputs","histories","fault_sequences"],"all messages of all types, chunk headers, damaged bytes, points of departure",
 "RTMP is not compiled by the test build.",
 ["src/module/rtmp/sps_rtmp_server_handler.cpp","src/avformat/sps_avformat_librtmp.cpp","src/avformat/sps_avformat_librtmp_packet.cpp"],[("RtmpHook::recv_packet / on_recv_packet","src/avformat/sps_avformat_librtmp.cpp"),("RtmpPreRequest","src/module/rtmp/sps_rtmp_server_handler.cpp")])
p("P43","The RTMP client and the RTMP packet formats carry every message exactly",
 "For every sequence of RTMP messages in any chunking and interleaving, the demuxer (and the FLV byte view) yields each audio, video and script message once, in order, with its time, composition time (negative too), flags, codec and bytes, and refuses short messages and unknown codecs; for every sequence of packets the muxer writes the messages with exactly these fields, leaving the packets unchanged. The client connects to a server with any handshake, chunk size and extra messages, asks for exactly the stream its url names, and a pull from an RTMP source delivers every frame of it.",
 I,"all message and packet sequences, timestamps, chunk sizes, interleavings, urls, read sizes",
 "RTMP is not compiled by the test build.",
 ["src/avformat/sps_avformat_rtmpdec.cpp","src/avformat/sps_avformat_rtmpenc.cpp","src/io/url/sps_io_url_rtmp.cpp","src/io/url/sps_io_url_rtmp_ffmpeg.cpp","src/avformat/sps_avformat_librtmp.cpp"],[("RtmpDemuxer::read_packet","src/avformat/sps_avformat_rtmpdec.cpp"),("RtmpAVMuxer::write_packet","src/avformat/sps_avformat_rtmpenc.cpp"),("RtmpHook::client_connect","src/avformat/sps_avformat_librtmp.cpp"),("RtmpURLProtocolFactory::create","src/io/url/sps_io_url_rtmp.cpp")])
p("P44","Servers end idle connections in time and release every connection that ended",
 "For every set of clients of an installed http, https or rtmp server, whatever part of a request or handshake they have sent: a client silent for the configured receive timeout is disconnected, not before that time (nor at all without a timeout), and once clients have closed, reset, left before their answer or been cut off, the server keeps none of the descriptors of their connections; the other clients are served as usual.",
 ["histories"],"all sets of concurrent clients, points of leaving or falling silent, timeouts",
 "No test opens a server connection.",
 ["src/module/server/sps_server.cpp","src/module/server/sps_server_module.cpp","src/sys/st/io/sps_sys_st_io_ssl.cpp"],[("Server::accept","src/module/server/sps_server.cpp"),("IConnHandler::on_stop","src/module/server/sps_server.cpp"),("StSSLHandshake::handler","src/sys/st/io/sps_sys_st_io_ssl.cpp")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
