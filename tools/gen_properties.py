#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so ids, anchors and text stay in step)."""
import json, os
R='modules/nginx-rtmp-module/'; T='modules/nginx-toolkit-module/'; M='modules/nginx-multiport-module/'; C='modules/nginx-client-module/'; NT='modules/nginx-ts-module/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe,'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
NOT='None of the 91 stable tests starts an RTMP session; they call map, URL and port helpers once each.'

p('P01','Live RTMP fan-out delivers the published media exactly',
  'Every RTMP player of a live stream receives the audio and video messages published on it byte for byte, each at most once, in publish order per player, with the publisher\'s timestamps; nothing that was not published to that stream ever reaches it. While the player keeps draining its connection no message after its join point is missing.',
  ['inputs','schedules','histories'],
  'All message sizes, timestamps, chunk sizes, chunk interleavings and header compressions a publisher may use, all TCP segmentations and short reads or writes on any connection, and any number of players joining at any time.',
  NOT+' The guarantee quantifies over segmentations, chunkings and interleavings of several connections.',
  [R+'ngx_rtmp_handler.c',R+'ngx_rtmp_live_module.c',R+'ngx_rtmp_shared_module.c',R+'ngx_rtmp_gop_module.c'],
  [('chunk reassembly and serialisation','ngx_rtmp_recv / ngx_rtmp_send in ngx_rtmp_handler.c'),('broadcast to players','ngx_rtmp_live_av'),('shared reference-counted frames','ngx_rtmp_shared_*')],
  ['RTMP messages received by players compared with RTMP messages sent by the publisher'])

p('P02','A late joiner starts decodable: metadata, codec headers, then a keyframe',
  'A player that joins a stream already in progress receives the current metadata and the current codec configuration before the first coded frame of each kind, and its first coded video frame is a keyframe when the server is configured to wait for or cache keyframes. The cached burst and the live continuation form one gap-free, duplicate-free sequence in publish order, and a configuration change in mid-stream reaches every player before the frames that need it.',
  ['schedules','histories','configurations'],
  'All join instants relative to every published message, GOP structures, mid-stream codec-header changes, cache-time, low-latency, send-all and wait-key settings.',
  NOT+' Join instants and GOP structure are a schedule quantifier.',
  [R+'ngx_rtmp_gop_module.c',R+'ngx_rtmp_live_module.c',R+'ngx_rtmp_codec_module.c'],
  [('GOP cache','ngx_rtmp_gop_module.c'),('keyframe gating','ngx_rtmp_live_av'),('codec header and metadata capture','ngx_rtmp_codec_module.c')],
  ['sequence of messages seen by a player from its join on'])

p('P03','One active publisher per stream, with lossless-order failover',
  'At any time at most one publisher feeds the players of a stream: a second ordinary publisher is refused with the bad-name status while the first keeps running undisturbed, and when publishers of different priority are admitted only the highest-priority one is heard. When the active publisher goes away, the stream name becomes publishable again (or the next publisher takes over) within a bounded time, and players never see frames of two publishers interleaved out of priority.',
  ['schedules','histories','fault_sequences'],
  'All interleavings of publish, unpublish, disconnect and silent death of several publishers, priorities and players on the same stream name.',
  NOT+' Exclusivity is a race property between sessions.',
  [R+'ngx_rtmp_live_module.c',R+'ngx_rtmp_cmd_module.c',R+'ngx_live.c'],
  [('publisher admission and priority map','ngx_rtmp_live_join'),('only the head publisher is forwarded','ngx_rtmp_live_av'),('stream life cycle','ngx_live_create_stream / ngx_live_delete_ctx')],
  ['status replies to publishers, messages seen by players'])

p('P04','HTTP-FLV playback is a valid FLV of exactly the published stream',
  'An HTTP-FLV viewer receives one FLV header followed by well-formed tags whose audio and video payloads are the published messages byte for byte, in order, without loss, duplication or invention while it keeps up, starting decodable. The response framing stays valid under every short write and disconnect until the connection closes, and the server ends the response when the stream ends (with idle streams off) and never before.',
  ['inputs','schedules','configurations'],
  'All publish sequences, join instants, short writes, HTTP versions (chunked or not), and disconnects.',
  NOT+' No test issues an HTTP-FLV request.',
  [R+'http/ngx_http_flv_live_module.c',R+'ngx_rtmp_live_module.c',R+'ngx_rtmp_gop_module.c'],
  [('tag construction and output chain','ngx_http_flv_live_prepare_out_chain'),('write handler','ngx_http_flv_live_write_handler'),('request to session mapping','ngx_http_flv_live_handler')],
  ['HTTP response bytes'])

p('P05','HTTP-TS playback is a valid transport stream of the published media',
  'An HTTP-TS viewer receives whole 188-byte packets beginning with the program tables, with per-PID continuity counters that never jump, and PES payloads which decode to exactly the published access units, in order, each once, with timestamps matching the published ones. This holds while other viewers join, stall or leave.',
  ['inputs','schedules'],
  'All publish sequences of H.264/H.265 and AAC, frame sizes around packet boundaries, join instants, short writes and disconnects.',
  NOT+' No test issues an HTTP-TS request.',
  [R+'mpegts/ngx_mpegts_live_module.c',R+'mpegts/ngx_mpegts_gop_module.c',R+'mpegts/ngx_mpegts_http_module.c'],
  [('PES and TS packetisation','ngx_mpegts_live_h264_handler / aac_handler'),('TS GOP cache','ngx_mpegts_gop_module.c'),('HTTP output','ngx_mpegts_http_write_handler')],
  ['HTTP response bytes demultiplexed'])

p('P06','HLS on disk: every visible playlist is complete and playable',
  'At every instant, including any crash point, the playlist file visible under its final name is a complete playlist whose listed segments exist and are complete, with media sequence numbers that never go backwards and target duration at least every segment duration. Concatenating the segments a poller sees yields exactly the published access units in order, without loss or duplication, as long as the disk does not fail.',
  ['crash_points','inputs','fault_sequences','schedules'],
  'All publish sequences, fragment and playlist lengths, naming schemes, crash after any file operation, restarts and republishes, and write, open or rename errors and full disks.',
  NOT+' Atomicity is about every crash point between two system calls.',
  [R+'hls/ngx_rtmp_hls_module.c',R+'hls/ngx_rtmp_mpegts.c'],
  [('write to temporary then rename','ngx_rtmp_hls_write_playlist'),('fragment open and close','ngx_rtmp_hls_update_fragment'),('restart restore','ngx_rtmp_hls_restore_stream'),('cleanup of old segments','ngx_rtmp_hls_cleanup_dir')],
  ['directory contents after every file-system call'])

p('P07','HLS+ sessions serve playlists and segments that match the stream',
  'Every playlist served to an HLS+ session lists only segments that the same session can fetch in full, with sequence numbers that never go backwards, and the fetched segments concatenate to exactly the published access units in order. A session that stops polling is closed after its timeout and frees what it held, without affecting other sessions.',
  ['schedules','inputs','histories'],
  'All publish sequences, polling schedules, segment sizes, slow fetches in progress while the segment leaves the window, session expiry and disconnects.',
  NOT+' No test issues an HLS+ request.',
  [R+'mpegts/ngx_hls_live_module.c',R+'mpegts/ngx_hls_http_module.c',R+'mpegts/ngx_mpegts_live_module.c'],
  [('fragment window and reference counts','ngx_hls_live_*frag'),('session by id','ngx_hls_live_fetch_session'),('HTTP handlers','ngx_hls_http_*')],
  ['HTTP responses of one session over time'])

p('P08','FLV recordings hold exactly the published stream, at every crash point',
  'A recording file is at every instant a valid FLV header followed by well-formed tags (only the tag being written when the process or the disk stopped may be incomplete) carrying the published messages byte for byte, in order, starting decodable, and when the recording is closed normally it holds all of them up to the configured limits. Only the publisher which is heard is recorded. A recording that hits a disk error or full disk stops or is truncated without disturbing live delivery.',
  ['crash_points','inputs','fault_sequences','configurations'],
  'All publish sequences, recorder flags (audio, video, keyframes, all, manual), size, frame and interval limits, append and unique modes, crash after any file operation, and write errors.',
  NOT+' Durability is about every crash point and disk error.',
  [R+'ngx_rtmp_record_module.c'],
  [('file open, header and append','ngx_rtmp_record_node_open'),('tag writing','ngx_rtmp_record_write_frame'),('limits and splitting','ngx_rtmp_record_node_av')],
  ['file contents after every file-system call'])

p('P09','TS recordings and their index agree with the published stream',
  'The transport-stream recording of a publish is whole packets with continuous counters that demultiplex to exactly the published access units in order, and its index lists contiguous slices that tile the recorded file with durations and byte offsets matching the file. This holds across slice boundaries and at every crash point for what has been indexed.',
  ['crash_points','inputs','configurations','fault_sequences'],
  'All publish sequences, slice intervals, buffer sizes, crashes after any file operation, and write errors.',
  NOT,
  [R+'ngx_live_record.c',R+'hls/ngx_rtmp_mpegts.c'],
  [('buffered TS writer','ngx_live_record_write_buf / ngx_live_record_flush'),('index','ngx_live_record_write_index')],
  ['file contents after every file-system call'])

p('P10','DASH output is always a complete, consistent manifest and media segments',
  'While a stream is published, the manifest visible under its final name is complete at every instant and lists segments (and refers to init segments) which exist and are complete, and each listed segment is well-formed with sample tables whose sizes and durations tile its media data. Together the segments carry exactly the published access units in order; after a disk error a segment that could not be written is left out, and live delivery goes on.',
  ['crash_points','inputs','fault_sequences'],
  'All publish sequences, fragment lengths, crash after any file operation and disk errors.',
  NOT,
  [R+'dash/ngx_rtmp_dash_module.c',R+'dash/ngx_rtmp_mp4.c'],
  [('write to temporary then rename','ngx_rtmp_dash_write_playlist / ngx_rtmp_dash_close_fragment'),('moof/mdat construction','ngx_rtmp_mp4.c')],
  ['directory contents after every file-system call'])

p('P11','Cross-server relay converges and carries the stream unchanged',
  'When a stream is configured to be pulled from or pushed to another server, then once at least one configured peer is reachable and network faults have stopped, the stream is relayed within a bounded time, and the far side\'s players receive the origin\'s messages byte for byte in order per connection. A dropped relay is set up again, attempts at peers that cannot be reached are repeated with backoff, alternate peers are tried, and relaying stops when nobody needs it.',
  ['fault_sequences','schedules','histories'],
  'All sequences of connection refusal, reset, stall, partition and heal, peer crash and restart, players and publishers coming and going, for RTMP and HTTP-FLV transport.',
  NOT+' Convergence quantifies over fault sequences and time.',
  [R+'ngx_live_relay.c',R+'ngx_live_relay_simple.c',R+'ngx_live_relay_rtmp.c',R+'ngx_live_relay_httpflv.c',R+'ngx_live_relay_static.c'],
  [('relay session creation','ngx_live_relay.c'),('reconnect timers','ngx_live_relay_simple.c / ngx_live_relay_static.c'),('client side of RTMP and HTTP-FLV','ngx_live_relay_rtmp.c / ngx_live_relay_httpflv.c')],
  ['messages at players of the far server; relay connection attempts over time'])

p('P12','Any worker can serve any stream (inter-worker relay)',
  'With several worker processes, a stream published on one worker is playable from every other worker: the player receives the published messages unchanged and in order, whichever of publisher and player came first. One worker owns a stream at a time, and when a worker dies, its streams become publishable and playable again on the surviving or respawned workers within a bounded time.',
  ['schedules','crash_points','histories'],
  'All placements of publishers and players on workers, all orders of arrival and departure, and worker crashes at any point.',
  NOT+' The tests run one call against one worker.',
  [R+'ngx_live_relay_inner.c',M+'ngx_stream_zone_module.c',M+'ngx_event_multiport_module.c'],
  [('stream ownership in shared memory','ngx_stream_zone_insert_stream / delete'),('per-worker listening sockets','ngx_event_multiport_module.c'),('inner relay','ngx_live_relay_inner.c')],
  ['messages at players; ownership zone status'])

p('P13','Notify callbacks gate admission and bracket every session exactly',
  'With a start callback configured, a publish or play takes effect if and only if the callback server answers with success (or the configured tolerance applies), and on refusal, error or timeout the client is told and disconnected within the callback timeout. Every admitted session is followed by periodic updates while it lasts and exactly one done callback when it ends, each carrying that session\'s own identity.',
  ['schedules','fault_sequences','histories'],
  'All callback answers, delays, partial and malformed responses, resets and timeouts interleaved with client disconnects.',
  NOT+' The interleavings of asynchronous callback and client events are a schedule quantifier.',
  [R+'ngx_rtmp_notify_module.c',R+'ngx_netcall.c',C+'ngx_http_client.c',C+'ngx_client.c'],
  [('notify state machine','ngx_rtmp_notify_pnotify_start / _done'),('asynchronous HTTP call with timeout','ngx_netcall.c'),('HTTP client','ngx_http_client.c')],
  ['HTTP requests at the callback server; RTMP replies at the client'])

p('P14','No peer can crash the server or disturb other sessions',
  'No sequence of bytes, timings and disconnects from any peer terminates or hangs a worker or corrupts its memory, and sessions not involved keep being served correctly throughout. A peer that breaks the protocol loses at most its own connection.',
  ['inputs','schedules','fault_sequences'],
  'All byte streams (valid, mutated, truncated, reordered commands) on every listening port and on every outgoing connection, and disconnects at every point.',
  NOT+' Quantifies over all inputs.',
  [R+'ngx_rtmp_handler.c',R+'ngx_rtmp_receive.c',R+'ngx_rtmp_amf.c',R+'ngx_rtmp_cmd_module.c',R+'ngx_rtmp_handshake.c',R+'ngx_rtmp_codec_module.c'],
  [('message parsing','ngx_rtmp_recv, ngx_rtmp_receive.c, ngx_rtmp_amf.c'),('command state machine','ngx_rtmp_cmd_module.c'),('codec parsing','ngx_rtmp_codec_module.c')],
  ['process liveness, and a bystander stream\'s delivery'])

p('P15','Slow consumers cost only themselves and a bounded amount of memory',
  'A player that stalls or drains slowly never delays or damages what the publisher and the other players see; the server holds at most its configured queue for it and drops whole messages beyond that, so what it does receive stays a well-formed, in-order subset. If it makes no progress for the configured time it is disconnected.',
  ['schedules','histories','configurations'],
  'All drain rates and stall patterns of any subset of players, queue sizes and publish rates.',
  NOT+' Back-pressure is a schedule quantifier.',
  [R+'ngx_rtmp_handler.c',R+'ngx_rtmp_live_module.c'],
  [('bounded output ring and drop by priority','ngx_rtmp_send_message'),('send timeout','ngx_rtmp_send')],
  ['messages received by slow and healthy players; connection close time'])

p('P16','Everything a session used is returned when it ends',
  'After all clients are gone and timers have run out, the server\'s live stream, session, frame, buffer and pool accounting is back at its idle level, whatever the clients did and however they left. Repeating the same activity therefore does not grow the server\'s use of resources.',
  ['histories','fault_sequences','schedules'],
  'All histories of publish, play, HTTP play, relay and callback activity ending in any kind of departure.',
  NOT+' A leak shows only over histories and abnormal ends.',
  [R+'ngx_rtmp_shared_module.c',R+'ngx_live.c',R+'ngx_rtmp_init.c',T+'ngx_rbuf.c',T+'ngx_poold.c',R+'ngx_rtmp_sys_stat_module.c'],
  [('reference-counted frames','ngx_rtmp_shared_free_frame'),('stream and session free lists','ngx_live.c'),('status endpoint','ngx_rtmp_sys_stat_module.c')],
  ['resource status page before and after; open descriptors'])

p('P17','Dead peers are detected and their sessions ended in bounded time',
  'A peer that stops responding at any stage (handshake, command phase, publishing, playing, HTTP playing, relay) without closing its connection is disconnected within the configured timeouts, and its stream is released, while a live but quiet peer that answers pings is kept (an HTTP player that cannot answer anything is noticed once there is media to send to it). Deadlines follow elapsed time even if the wall clock is stepped.',
  ['fault_sequences','schedules'],
  'All stages at which a peer may go silent, and wall-clock steps.',
  NOT+' Liveness over time cannot be sampled by unit tests.',
  [R+'ngx_rtmp_handler.c',R+'ngx_rtmp_handshake.c',R+'ngx_rtmp_live_module.c'],
  [('ping','ngx_rtmp_ping'),('handshake timer','ngx_rtmp_handshake.c'),('idle publisher timer','ngx_rtmp_live_module.c')],
  ['simulated time from the last peer activity to the close of its connection'])

p('P18','Status and control pages agree with reality',
  'The statistics page lists exactly the streams and clients currently connected with their right roles, and a control request affects exactly the sessions its filters name: dropped clients are closed, others are untouched, and the count reported equals the number affected. The pages stay consistent while sessions come and go.',
  ['histories','schedules'],
  'All histories of sessions with status and control requests at any instant.',
  NOT,
  [R+'ngx_rtmp_stat_module.c',R+'ngx_live_stat.c',R+'ngx_rtmp_control_module.c',R+'ngx_live.c'],
  [('walk of servers, streams and sessions','ngx_rtmp_control_walk'),('stat output','ngx_rtmp_stat_module.c / ngx_live_stat.c')],
  ['HTTP responses compared with the simulator\'s own list of sessions'])

p('P19','The dynamic resolver serves fresh addresses and survives DNS failure',
  'A configured domain resolves to an address that its DNS server actually published, a changed record is picked up within the refresh interval, and DNS loss, delay, duplication or error answers never remove a still-working address or answer any caller twice or never. Every asynchronous query is answered exactly once.',
  ['fault_sequences','schedules'],
  'All sequences of DNS answers, losses, delays, duplicates, error codes and record changes.',
  'The stable tests never send a DNS query. Quantifies over fault sequences.',
  [T+'ngx_dynamic_resolver.c',T+'ngx_event_resolver.c'],
  [('periodic refresh','ngx_dynamic_resolver.c'),('query','ngx_event_resolver.c')],
  ['which address outgoing connections go to, DNS queries seen'])

p('P20','Dynamic configuration changes apply atomically or not at all',
  'After the dynamic configuration file changes, within the refresh interval every new session or request sees either the old configuration in full or the new one in full, and the static pulls that run are exactly those it names; a file that is missing, truncated or invalid leaves the old one in force. Sessions and static pulls that a reload does not change go on without interruption and repeated reloads do not leak.',
  ['schedules','fault_sequences','histories'],
  'All sequences of file edits, including partial writes and missing or unreadable files, interleaved with sessions, requests and failures of the origin.',
  'The stable tests load the documented example once per case. They cannot cover reload races, errors or sequences.',
  [T+'ngx_dynamic_conf.c',T+'ngx_http_dynamic.c',R+'ngx_rtmp_dynamic.c',R+'ngx_live_relay_static.c'],
  [('reload timer and pool swap','ngx_dynamic_conf.c'),('per-request lookup','ngx_http_dynamic.c / ngx_rtmp_dynamic.c')],
  ['behaviour of requests before, during and after a reload'])

p('P21','Session logs account for every session exactly once with the right bytes',
  'Every RTMP session that ended is written to the access log exactly once, with its own identity, and the byte counts logged equal what actually crossed its connection in each direction. This holds for every way a session can end, including a restart of the log file or a full disk afterwards.',
  ['histories','fault_sequences'],
  'All histories of sessions and kinds of departure.',
  NOT,
  [R+'ngx_rtmp_log_module.c',R+'ngx_rtmp_handler.c'],
  [('log at disconnect','ngx_rtmp_log_disconnect'),('byte counters','ngx_rtmp_recv / ngx_rtmp_send')],
  ['log file lines compared with simulated connections'])

p('P22','Access rules and connection limits are enforced for every session',
  'A publish or play over RTMP from an address (with the PROXY protocol: the client address it announces) that the rules deny never takes effect and one they allow is not refused, and the number of simultaneously admitted connections never exceeds the configured limit while a freed slot always becomes usable again. This holds for every order of connects and disconnects and across workers.',
  ['schedules','histories','configurations'],
  'All interleavings of connects and disconnects, all rule lists.',
  NOT,
  [R+'ngx_rtmp_access_module.c',R+'ngx_rtmp_limit_module.c'],
  [('first matching rule','ngx_rtmp_access'),('shared connection counter','ngx_rtmp_limit_connect / disconnect')],
  ['whether sessions are admitted'])

p('P23','A broadcast request reaches every worker exactly once',
  'A broadcast HTTP request is executed exactly once on every live worker (a killed or stalled worker: at most once) and the client receives the unaltered answers of all workers that answered 200, each with the configured prefix rewritten and the whole followed by the configured suffix once; a worker that cannot be asked or answers otherwise is left out, and one that dies in the middle of its answer breaks the response off instead of leaving a torn answer in a complete one. A request to a worker\'s own port is handled by that worker, and one passed on by the inner proxy is executed once by the worker it names and answered with that worker\'s status, headers and body. A slow client, a worker crash or a stall never hangs the client forever.',
  ['schedules','crash_points','fault_sequences'],
  'All numbers of workers, interleavings, short reads and writes between workers and to the client, answer sizes, and worker crashes and stalls.',
  'The stable tests only format port strings and look up slots.',
  [M+'ngx_http_broadcast_module.c',M+'ngx_http_inner_proxy_module.c',M+'ngx_event_multiport_module.c'],
  [('subrequest per worker','ngx_http_broadcast_module.c'),('per-worker port','ngx_event_multiport_module.c'),('another worker asked on behalf of a request','ngx_http_inner_proxy_module.c')],
  ['HTTP responses and which worker answered'])

p('P24','MPEG-TS published over HTTP becomes HLS of exactly its content',
  'A transport stream uploaded by PUT or POST to a `ts` location is written as HLS on disk, one variant per program: the access units of the segments taken in order are those received, byte for byte and once each, with their timestamps, clock references and random access marks; a segment ends at the first permitted point once the configured minimum duration is reached, or at the maximum duration or size; a playlist lists only complete segments that exist and are not written any more, in order, with rising sequence numbers and their true durations, and is ended when the upload ends in whatever way. An upload sent completely is answered 204 within bounded time; one that is malformed, cut off or hit by disk errors disturbs no other.',
  ['inputs','schedules','fault_sequences','crash_points'],
  'All valid transport streams (programs, elementary streams, PES sizes bounded or not, multiplexing, adaptation fields, timestamps including their 33-bit wrap), body framings and TCP segmentations, and malformed streams, disconnects, disk errors and crashes at any point.',
  'None of the 91 stable tests uploads a transport stream.',
  [NT+'ngx_http_ts_module.c',NT+'ngx_ts_stream.c',NT+'ngx_ts_hls.c'],
  [('unbuffered body reading','ngx_http_ts_init / ngx_http_ts_read_event_handler'),('demultiplexing and multiplexing','ngx_ts_read / ngx_ts_packetize'),('segments and playlists','ngx_ts_hls_close_segment / ngx_ts_hls_update_playlist / ngx_ts_hls_cleanup')],
  ['playlist and segment files on disk at every write','HTTP responses'])
p('P25','What a peer calls its stream, application or arguments never reaches beyond it',
  'Whatever byte strings peers choose as application, stream name and arguments, their effects stay with their own session and stream: no file is created, written, renamed or removed outside the directories configured for recordings, HLS, DASH, keys and logs; every callback is exactly the one request that was configured and names exactly the application and stream that the peer asked for; a recording holds media of that stream only; every line of the access log has the configured form, and no peer can forge one; and other streams, publishers and players are served as if the names were harmless. A name that cannot be used safely is refused.',
  ['inputs','schedules','fault_sequences'],
  'All byte strings as names, applications and arguments (control characters, percent escapes, separators, dot segments, format specifiers, delimiters of URLs and HTTP) together with all schedules.',
  'The 91 stable tests use plain names only.',
  [NT+'ngx_rtmp_notify_module.c',NT+'ngx_rtmp_record_module.c',NT+'ngx_live_record.c',NT+'hls/ngx_rtmp_hls_module.c',NT+'dash/ngx_rtmp_dash_module.c',NT+'ngx_rtmp_log_module.c'],
  [('callback URLs','ngx_rtmp_notify_escape_arg / ngx_rtmp_notify_copy_args'),('file paths','ngx_rtmp_record_make_path / ngx_live_record_open_index / ngx_rtmp_hls_publish / ngx_rtmp_dash_publish'),('access log','ngx_rtmp_log_write')],
  ['file operations at the system call boundary','HTTP requests received by the callback server','files on disk','access log'])
p('P26','The server asked about each recording decides what is recorded and is told what has been',
  'With on_record configured, the server named there is asked exactly once about the recording of each published stream, before the publish goes on; the publish goes on within the configured timeout whatever it answers, or if it answers nothing. An answer of 200 makes the recording happen, any other answer prevents it, and without an answer in time the configuration (live_record) decides. What is recorded is the whole publish. With the stages configured, one update is sent for every file of the recording as it ends, and one done at the end of the recording; each names an existing file and index holding media of that very session, and exactly the times which the index gives. Nothing is said about a recording that is not made. No answer, delay or failure of that server, and no departure of the publisher meanwhile, ends a worker or a session or leaks memory.',
  ['schedules','fault_sequences','histories'],
  'All answers, delays, partial replies, resets, outages and timeouts of the callback server interleaved with publishes, departures, disk errors and keep-alive connections.',
  'No stable test configures a recording callback.',
  [NT+'ngx_live_record.c',NT+'ngx_rtmp_notify_module.c',NT+'ngx_netcall.c'],
  [('record callbacks','ngx_rtmp_notify_record_start / _record_update / _record_done'),('recorder','ngx_live_record_start / ngx_live_record_reopen_index / ngx_live_record_close_stream'),('asynchronous HTTP call with timeout','ngx_netcall.c')],
  ['HTTP requests at the callback server','recording and index files','RTMP replies at the publisher'])
p('P27','Relays directed by a callback server follow its answers',
  'With on_pull, the first player of a stream that nobody publishes here makes the server ask where to get it; with on_push, every publisher makes it ask where to send it. A redirect is followed: players behind the relay get the published messages unchanged and in order, within bounded time once faults stop, and also after the relay, the far server or the callback server failed. An answer of 200 means no relay, and is not asked for again on the same account; a refusal ends the players (the publisher) it was asked for. No relay is asked for that nobody needs, none outlives its need, and with the stages configured each relay that was granted is reported as going on only while it is there, and as ended exactly once. No answer, delay, garbage location or failure ends a worker or an uninvolved session.',
  ['schedules','fault_sequences','histories'],
  'All answers, locations, delays, partial replies, outages and timeouts of the callback server interleaved with joins, departures, publisher changes, network faults and crashes of either server.',
  'No stable test configures on_pull or on_push.',
  [NT+'ngx_rtmp_notify_module.c',NT+'ngx_live_relay.c',NT+'ngx_live_relay_rtmp.c',NT+'ngx_netcall.c'],
  [('asking and following','ngx_rtmp_notify_relay_start / _relay_handler / _relay_start_handle'),('end of a relay','ngx_rtmp_notify_push_close / _pull_close / _relay_done'),('relay by RTMP','ngx_live_relay_rtmp.c')],
  ['HTTP requests at the callback server','messages at players on both servers','connections between the servers'])


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
