# What check.py needs to know about each property.
REAL = ['nginx 1.24 (event loop, timers, HTTP, pools)', 'every module of /repo (built from the working tree)', 'the libc and the scratch file system for file contents']
STUB = ['sockets, epoll, accept, TCP/UDP/unix delivery (simulated network)', 'clocks, timers, sleeps (virtual time)', 'process scheduling, fork order, signals', 'randomness, pids', 'RTMP/HTTP clients, remote servers, DNS servers (models in the simulator)']
FAULTS_NOTE = 'A clean batch is evidence, not proof: seeds sample schedules, configurations and faults. The compiler, libc, nginx core and the kernel file system are trusted.'
PROPS = {
    'P01': dict(nontrivial=['messages compared'], rule='Non-trivial: at least one audio or video message received by a player was compared with what was published.'),
    'P02': dict(nontrivial=['frames with their codec header', 'metadata first', 'gap-free sequences'], rule='Non-trivial: at least one frame of a player was checked against the codec header and metadata in force.'),
    'P03': dict(nontrivial=['intervals checked', 'publishers refused'], rule='Non-trivial: a publisher was refused, or an interval in which exactly one publisher had to be heard was checked at a player.'),
    'P04': dict(nontrivial=['frames with their codec header', 'messages compared'], rule='Non-trivial: at least one message received by an RTMP or FLV player was compared with what was published.'),
    'P05': dict(nontrivial=['access units compared'], rule='Non-trivial: at least one access unit decoded from a TS viewer was compared with the published one.'),
    'P06': dict(nontrivial=['segments checked', 'access units compared'], rule='Non-trivial: at least one playlist was parsed when it became visible, and the access units of a listed segment compared with what was published.'),
    'P07': dict(nontrivial=['playlists checked', 'segments checked'], rule='Non-trivial: at least one HLS+ viewer was served playlists, and the segments they list were fetched, decoded and compared with what was published.'),
    'P08': dict(nontrivial=['recordings checked', 'tags compared'], rule='Non-trivial: at least one FLV recording was parsed and its tags compared with what was published.'),
    'P09': dict(nontrivial=['index entries checked', 'access units compared'], rule='Non-trivial: at least one index entry was checked the moment it was written, and the access units of its slice compared with what was published.'),
    'P10': dict(nontrivial=['segments checked', 'samples compared'], rule='Non-trivial: at least one manifest was parsed when it became visible, and the samples of a listed segment compared with what was published.'),
    'P11': dict(nontrivial=['far players up to date'], rule='Non-trivial: a player of a stream relayed from another server was compared, after every fault had ended, with what its publisher had been sending.'),
    'P12': dict(nontrivial=['players up to date'], rule='Non-trivial: with several workers, a player that had been connected long enough was compared with what its publisher, on whichever worker, had been sending.'),
    'P13': dict(nontrivial=['callbacks', 'sessions checked'], rule='Non-trivial: at least one session was decided by a callback, and its admission, updates and end were checked against the requests the callback server saw.'),
    'P14': dict(nontrivial=['hostile bytes', 'bystanders checked'], rule='Non-trivial: hostile peers sent bytes, or a bystander session was compared with what was published.'),
    'P15': dict(nontrivial=['slow players', 'delays checked', 'backlogs'], rule='Non-trivial: a slow or stalled player existed, and a healthy player or a backlog was checked.'),
    'P16': dict(nontrivial=['idle snapshots'], rule='Non-trivial: the same activity was repeated and heap, descriptors and status pages were compared at idle after every repetition.'),
    'P17': dict(nontrivial=['dead peers noticed', 'idle publishers dropped'], rule='Non-trivial: a peer that fell silent was noticed within the bound, or an idle publisher was dropped, while the answering peers were kept.'),
    'P18': dict(nontrivial=['clients listed', 'control requests that reach someone'], rule='Non-trivial: a client listed on a status page was checked against the sessions that existed, or a control request reached somebody and its effect was checked.'),
    'P19': dict(nontrivial=['callers told an address', 'relays at the current address', 'uses of a withdrawn address within the limit'], rule='Non-trivial: a session that had to resolve a name went through with an address checked against the answers given, or a relay reached the address that is current.'),
    'P20': dict(nontrivial=['sessions with one possible server id', 'frames that had to come through a static pull', 'reloads under watch for growth'], rule='Non-trivial: a session was checked against the only configuration that could be in force, a frame had to come through a configured static pull, or the memory was watched over many reloads.'),
    'P21': dict(nontrivial=['sessions compared'], rule='Non-trivial: the log line of at least one session that ended was compared with what crossed its connection.'),
    'P22': dict(nontrivial=['connections refused', 'denied publishers', 'denied players'], rule='Non-trivial: at least one session was refused by a rule or by the connection limit, and the sessions allowed beside it were checked.'),
    'P23': dict(nontrivial=['executions checked', 'requests during faults', 'requests to one worker'], rule='Non-trivial: at least one broadcast was checked to have been executed once on every live worker, or a request for one worker to have reached it; runs with faults count separately.'),
    'P24': dict(nontrivial=['access units compared', 'segment boundaries checked', 'streams accepted'], rule='Non-trivial: at least one access unit of a segment was compared with what was uploaded and at least one upload was accepted or one segment boundary checked.'),
    'P27': dict(nontrivial=['relays asked for', 'far players up to date'], rule='Non-trivial: at least one relay was asked for at the callback server and directed by its answer, and players behind it were compared with what was published.'),
    'P26': dict(nontrivial=['publishes that went on', 'callbacks about files checked', 'recordings not made', 'complete recordings'], rule='Non-trivial: at least one recording was decided by a callback, and the files made (or not made) and what the callbacks said of them were compared with what was published.'),
    'P25': dict(nontrivial=['callbacks checked', 'recorded messages compared', 'log lines checked'], rule='Non-trivial: at least one callback or access log line was checked, or one recorded message compared, in a run whose peers chose hostile names or arguments.'),
}
