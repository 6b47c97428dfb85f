"""What each check explores."""
CHECKS = {}


def add(pid, crate, entries, bounds, thorough=None, bounds_thorough=None, assumptions=()):
    c = {"crate": crate, "entries": entries, "bounds": bounds, "assumptions": list(assumptions)}
    if thorough:
        c["thorough"] = thorough
        c["bounds_thorough"] = bounds_thorough or bounds
    CHECKS[pid] = c


def E(name, *covers, **kw):
    return dict(name=name, covers=list(covers), **kw)


# ------------------------------------------------------------------ device ----
add("L01", "dev", [E("h_l01_q", 1, 2, 3, 4), E("h_l01_keys", 1, 2), E("h_l01_api", 1, 2), E("h_l01_many", 1), E("h_l01_busy", 1)],
    "all histories of 5 requests (exclusive, shared with any 1-byte key, release, try_lock, drop/re-create) by 3 handles, followed by a request through a remote handle with an empty or any 1-byte key; two requests with any keys of 1-4 bytes or keys of 16, 255-257 bytes with one arbitrary byte; 4 steps of every public variant of the calls by 2 handles; shared locks with up to 300 holders; attempts to use the device in every state of 2 handles, in use or not",
    [E("h_l01_t", 1, 2, 3, 4), E("h_l01_keys", 1, 2), E("h_l01_api", 1, 2), E("h_l01_many", 1), E("h_l01_busy", 1)],
    "as quick, histories of 6 requests")
add("L02", "dev", [E("h_l02_wait", 1, 2, 9), E("h_l02_try", 1, 9), E("h_l03_many", 1, 2)],
    "one local or remote handle (holding nothing, a shared or the exclusive lock) waiting for or trying the device; 3 events (2 for try) out of {another handle acquires exclusive/shared a/shared b, releases, is dropped; device returned; own handle acquires/releases; wait abandoned}, each before or after the woken tasks run, plus 1 step of the other handle at any spin-lock boundary inside a poll; both select! orders for the first 2 polls; 3-70 handles waiting at once (each kind of request, one of another kind, one giving up in 3 ways, first, last or in the middle)",
    [E("h_l02_wait_t", 1, 2, 9), E("h_l02_try", 1, 9), E("h_l03_many", 1, 2)],
    "as quick with 4 events and 2 steps at spin-lock boundaries")
add("L03", "dev", [E("h_l03_wait", 1, 2, 9), E("h_l03_acquire", 1, 2, 9), E("h_l03_many", 1, 2)],
    "as L02; and two tasks waiting for any of {exclusive, shared a, shared b} (local or remote handles) against a third handle, 3 events, 1 step at any spin-lock boundary, 1 free scheduling choice; 3-70 handles waiting at once (each kind of request, one of another kind, one giving up in 3 ways, first, last or in the middle)",
    [E("h_l03_wait_t", 1, 2, 9), E("h_l03_acquire_t", 1, 2, 9), E("h_l03_many", 1, 2)],
    "as quick with 4 events and 2 steps at spin-lock boundaries")
add("L04", "dev", [E("h_l04_wait", 1, 2, 9), E("h_l04_acquire", 1, 2, 9), E("h_l04_memory"), E("h_l03_many", 1, 2)],
    "the scenarios of L02 (no step at spin-lock boundaries) and L03 with abandonment and drops at every point; memory: 30 repetitions of 5 kinds of attempt, the last 24 must not grow the heap; 3-70 handles waiting at once (each kind of request, one of another kind, one giving up in 3 ways, first, last or in the middle)",
    [E("h_l04_wait_t", 1, 2, 9), E("h_l04_acquire_t", 1, 2, 9), E("h_l04_memory"), E("h_l03_many", 1, 2)],
    "as quick with 4 events")
add("S01", "dev", [E("h_s01_q", 1, 2, 3), E("h_s01_memory"), E("h_s01_many", 1, 2)],
    "all histories of 6 steps (send any value through either of two senders, read all / wait, subscribe, drop a subscriber, clone a sender) with 2 subscriber slots; 18 subscribe/drop cycles with and without updates for memory; 1-129 subscribers, one or all others dropped, 3 rounds of updates",
    [E("h_s01_t", 1, 2, 3), E("h_s01_memory"), E("h_s01_many", 1, 2)],
    "as quick, 8 steps")
add("D01", "dev", [E("h_d01_box", 1, 2, 3), E("h_d01_lock", 1, 2, 3), E("h_d01_util", 1, 2, 3, 4), E("h_d01_status")],
    "two requests of any kind (commands of 0-3 bytes with none, empty or other responses, any status byte, all 20 trigger sources, every error) through 4 kinds of wrapper; commands of 0-6 bytes and the known ones with any one byte changed, with and without LF; histories of 4 events for the status")

# ------------------------------------------------------------------ HiSLIP ----
SIM = "one server task per connection on a single-threaded cooperative executor; each event is followed by running to quiescence unless stated"
add("H01", "hislip", [E("h_h01_init2", 1, 2, 3), E("h_h01_sync2", 1, 2, 3), E("h_h01_async2", 1, 2, 3), E("h_h01_cut", 1, 2), E("h_h01_accept", 1), E("h_h01_size", 1, 2)],
    "per state (uninitialised, synchronous, asynchronous; protocol 1.0 and 2.0): 2 messages with any type, control code and parameter, any payload of 0, 1, 8 (the limit) or 9 bytes, the first cut in two segments, then a known message; any byte string of up to 18 bytes (with and without valid prologue, limit 2) followed by end of stream; connections lost before accept; 7 kinds of message under 8 limits up to 100000 and up to 65536 bytes beyond them",
    [E("h_h01_init3", 1, 2, 3), E("h_h01_sync2", 1, 2, 3), E("h_h01_async3", 1, 2, 3), E("h_h01_cut", 1, 2), E("h_h01_accept", 1), E("h_h01_size", 1, 2)],
    "as quick with 3 messages on uninitialised and asynchronous connections", [SIM])
add("H02", "hislip", [E("h_h02_init", 1, 2), E("h_h02_ids", 1, 2), E("h_h03_q", 1, 2, 3), E("h_h02_config", 1)],
    "Initialize with any version, vendor and control code and 7 kinds of sub-address (empty, both known ones, every single byte, wrong case, truncated, invalid UTF-8) followed by AsyncInitialize with the right and 3 wrong ids; histories of 6 events as for H03; 3 devices by each of 5 ways to build the server in 3 orders, 2 sessions, 2 operations of 6 kinds",
    [E("h_h02_init", 1, 2), E("h_h02_ids", 1, 2), E("h_h03_t", 1, 2, 3), E("h_h02_config", 1)], "as quick, histories of 7 events", [SIM])
add("H03", "hislip", [E("h_h03_q", 1, 2, 3), E("h_h03_wrap", max_steps=3000000000), E("h_h03_memory", 1), E("h_h06_gone"), E("h_h03_many", 1)],
    "all histories of 6 events out of {Initialize, AsyncInitialize for any id seen so far or an unknown one, either channel of a session closed (EOF or reset), a session takes the exclusive lock, another message before initialisation} with a limit of 2 sessions; one run through all 32768 session ids with a live session; 10 sessions in a row doing one of 5 things and ending in one of 3 ways, the last 6 must not grow the heap; sessions lost while they wait for or hold locks; 3, 17 and 64 sessions at once",
    [E("h_h03_t", 1, 2, 3), E("h_h03_wrap", max_steps=3000000000), E("h_h03_memory", 1), E("h_h06_gone"), E("h_h03_many", 1)], "as quick, histories of 7 events", [SIM])
add("H04", "hislip", [E("h_h04_q", 1, 2), E("h_h04_idn", 1, 2), E("h_h04_long", 1), E("h_h04_many", 1)],
    "3 messages out of {Data, DataEnd (0-2 bytes each), Trigger, a refused message} with any payload, id and control code, delivered one by one, together, or cut at any byte; identification query: any command of 4-6 bytes split into Data/DataEnd anywhere, with and without short response; commands of 15 sizes up to 130000 bytes in messages of 5 sizes under 3 limits; 700 messages in one session",
    [E("h_h04_t", 1, 2), E("h_h04_idn", 1, 2), E("h_h04_long", 1), E("h_h04_many", 1)], "as quick, 4 messages", [SIM])
add("H05", "hislip", [E("h_h05_q", 1, 2), E("h_h05_long"), E("h_h05_many", 1), E("h_h05_big", 1)],
    "2 commands with responses none or 0-4 bytes (any content), any message ids, maximum size not negotiated or any 64-bit value, client reading at once or slowly (socket accepting 7 or 17 bytes at a time); responses of 255, 256, 257, 513 bytes without negotiation; many commands in a session; responses of 10 sizes up to 200000 bytes under 12 negotiated sizes",
    [E("h_h05_t", 1, 2), E("h_h05_long"), E("h_h05_many", 1), E("h_h05_big", 1)], "as quick, 3 commands, responses up to 5 bytes", [SIM])
add("H06", "hislip", [E("h_h06_q", 1, 2, 3, 4), E("h_h06_gone"), E("h_h06_many", 1), E("h_h06_cycles", 1)],
    "all histories of 4 events of 2 sessions and one other user: lock requests (exclusive, shared a/b, with trailing NULs, invalid UTF-8; timeout 0 or any other), releases, timeouts, sessions closing; lock information of both sessions after every event; lock counts of 0-300; 300 lock/release cycles with keys of 0-256 bytes",
    [E("h_h06_t", 1, 2, 3, 4), E("h_h06_gone"), E("h_h06_many", 1), E("h_h06_cycles", 1)], "as quick, 5 events", [SIM])
add("H07", "hislip", [E("h_h07_q", 1, 2, 3)],
    "2 requests out of {AsyncRemoteLocalControl with any code, device failing or not; AsyncStatusQuery with any device status; AsyncMaximumMessageSize of 0, 7, 8 bytes; any unsupported type on either channel}",
    [E("h_h07_t", 1, 2, 3)], "as quick, 3 requests", [SIM])
add("H08", "hislip", [E("h_h08_q", 1, 2), E("h_h08_2", 1, 2), E("h_h08_many", 1)],
    "0-2 messages before and 0-1 during the clear (Data, DataEnd with and without response, Trigger, refused and oversized messages), device free, locked or in use by another client and released at 4 points, or locked while in use, client reading at once or not at all, 1 free scheduling choice; two clears in sequence with fewer variations; 40 clears in a session",
    [E("h_h08_t", 1, 2), E("h_h08_2", 1, 2), E("h_h08_many", 1)], "as quick, up to 2 messages during the clear", [SIM])
add("H09", "hislip", [E("h_h09_t", 1, 2, 3), E("h_h09_two_t", 1, 2, 3), E("h_h09_many", 1)],
    "6 events (one session) or 4 (two sessions) out of {1-2 status signals with any value, first part of a status query / lock info / refused message cut at 4 places, its rest with a signal just before or after, a command on the synchronous channel}; 300 signals in a session", None, None, [SIM])
add("H10", "hislip", [E("h_h10_q", 1, 2), E("h_h03_many", 1), E("h_h04_many", 1), E("h_h10_slow", 1, 2)],
    "all histories of 4 events, each before or after the server runs: commands and triggers, another client taking/releasing exclusive or shared locks or the device itself, the session's own lock requests (granted or waiting), releases, remote/local requests and status queries; 2 free scheduling choices at the final release; 3, 17 and 64 sessions waiting at once, 700 messages in one session; one connection in any of 4 states that takes nothing, or 3 bytes, of what it is sent after any of 11 messages, while 3 sessions work and one ends",
    [E("h_h10_t", 1, 2), E("h_h03_many", 1), E("h_h04_many", 1), E("h_h10_slow", 1, 2)], "as quick, 5 events", [SIM])
add("H11", "hislip", [E("h_h11_codes", 1, 2)],
    "every 8-bit message type and error code, every 16-bit version and session id (complete)")

# ----------------------------------------------------- VXI-11, port mapper ----
add("V01", "vxi", [E("h_v01_q", 1, 2, 3, 4), E("h_v01_auth", 1, 2, 3, 4), E("h_v01_two", 1, 2, 3, 4), E("h_v01_args", 1), E("h_v01_many", 1)],
    "one call on each of the three services with any 32-bit transaction id, RPC version, program, version, procedure and credential flavours, bodies of 0, 4, 5 bytes; two calls in sequence split at 6 places; every procedure of the core service with its arguments cut short after any byte; 600 calls on one connection to each service", None, None, [SIM])
add("V02", "vxi", [E("h_v02_frag", 1, 2), E("h_v02_cut", 1), E("h_v02_len", 1, 2), E("h_v02_sum"), E("h_v02_opaque", 1, 2), E("h_v02_bytes", 1, 2), E("h_v02_accept"), E("h_v02_turns", 1), E("h_v02_slow", 1)],
    "a write split into 1-3 fragments at any byte, delivered whole, byte by byte or cut in a header, replies taken whole or 3 bytes at a time; a call cut by the end of the stream after any byte; a call behind a fragment header with every length up to its own + 1, 100, 4096, 2^20 and any larger one; two fragments exceeding the limit in sum; opaque and string arguments of any claimed length with 0-8 bytes present; any record of 0, 3, 4, 8, 11, 12, 28, 31, 32, 36 or 40 bytes on each service; connections lost before accept; 25 clients at once on each service leaving one after the other in 4 ways, then 9 in sequence for memory; a client that takes no or few bytes of its replies while others work",
    [E("h_v02_frag", 1, 2), E("h_v02_cut", 1), E("h_v02_len", 1, 2), E("h_v02_sum"), E("h_v02_opaque", 1, 2), E("h_v02_bytes_t", 1, 2), E("h_v02_accept"), E("h_v02_turns", 1), E("h_v02_slow", 1)],
    "as quick, with any record of 19 lengths up to 44 bytes", [SIM])
add("V03", "vxi", [E("h_v03_q", 1, 2, 3, 4), E("h_v03_lock", 1, 2), E("h_v03_ops"), E("h_v03_memory", 1), E("h_v03_many", 1)],
    "all histories of 3 events by 2 connections and 2 devices: create_link (with and without lock, known and unknown names), destroy_link for any link seen, connection closed, reset or half-closed; then every id on both connections and the abort channel; create_link waiting for a lock with any timeout; every procedure with 5 invalid ids; 10 links in sequence doing one of 6 things and ending in one of 4 ways for memory; up to 300 links on 2 connections",
    [E("h_v03_t", 1, 2, 3, 4), E("h_v03_lock", 1, 2), E("h_v03_ops"), E("h_v03_memory", 1), E("h_v03_many", 1)], "as quick, histories of 4 events", [SIM])
add("V04", "vxi", [E("h_v04_q", 1, 2), E("h_v04_wait", 1, 2, 3), E("h_v02_frag", 1, 2), E("h_v04_long", 1)],
    "2 writes (0-2 bytes, END or not, any other flags) to 2 links on the same or different connections, accepted, refused (locked) or to an invalid link, then a final write to each; 2 writes waiting for a lock with any timeout, released, timed out or aborted; writes split into fragments anywhere; writes of 12 sizes up to 200000 bytes in pieces and fragments of 4-5 sizes",
    [E("h_v04_t", 1, 2), E("h_v04_wait", 1, 2, 3), E("h_v02_frag", 1, 2), E("h_v04_long", 1)], "as quick, 3 writes", [SIM])
add("V05", "vxi", [E("h_v05_q", 1, 2), E("h_v05_long", 1)],
    "a command with a response of 0-3 bytes, one of {another command with a 0-2 byte response, a read, a refused read, a read on another link}, then two reads; each read with any requested size up to 3 or above 40, any flags and any termination character; responses of 12 sizes up to 300000 bytes read with 10 requested sizes and any termination character outside the pattern",
    [E("h_v05_t", 1, 2), E("h_v05_long", 1)], "as quick with 2 operations in between", [SIM])
add("V06", "vxi", [E("h_v06_q", 1, 2)],
    "2 operations out of {trigger, clear, remote, local with and without a device error, status query with any status byte, docmd, write with and without END}, any flags, device free or locked by another link; then the contents of both buffers",
    [E("h_v06_t", 1, 2)], "as quick, 3 operations", [SIM])
add("V07", "vxi", [E("h_v07_q", 1, 2, 3, 4), E("h_v07_ops", 1, 2, 3), E("h_v07_busy"), E("h_v03_lock", 1, 2), E("h_v04_wait", 1, 2, 3), E("h_v07_many", 1)],
    "all histories of 3 events of 2 links and one other user: lock (waiting or not, any timeout), unlock, write, read (waiting or not), link destroyed, connection closed, other user takes the exclusive or a shared lock, releases, a timeout; 2 events with all 7 operations; all 7 operations while the device is in use; create_link waiting for a lock and waiting writes with any timeout; 3-9 links waiting at once",
    [E("h_v07_t", 1, 2, 3, 4), E("h_v07_ops", 1, 2, 3), E("h_v07_busy"), E("h_v03_lock", 1, 2), E("h_v04_wait", 1, 2, 3), E("h_v07_many", 1)], "as quick, histories of 4 events", [SIM])
add("V08", "vxi", [E("h_v08_q", 1, 2, 3), E("h_v08_ops", 1, 2), E("h_v04_wait", 1, 2, 3), E("h_v08_many", 1)],
    "all histories of 4 events of 2 links: abort for either link, a destroyed or an unknown one, an attempt to destroy the other connection's link, a waiting lock, write or read, another user takes and releases the lock; both select! orders for the first 2 polls; every kind of waiting operation aborted after it waits, or while it starts (3 free scheduling choices); waiting writes; 60 waits in a row ended by lock, timeout or abort",
    [E("h_v08_t", 1, 2, 3), E("h_v08_ops", 1, 2), E("h_v04_wait", 1, 2, 3), E("h_v08_many", 1)], "as quick, 5 events", [SIM])
add("V09", "vxi", [E("h_v09_q", 1, 2), E("h_v09_broken", 1), E("h_v09_many", 1), E("h_v09_two", 1), E("h_v09_slow", 1, 2)],
    "all histories of 4 events: interrupt channel created (TCP or UDP, any program and version) and destroyed, service requests enabled (any handle) and disabled on 2 links, link destroyed, connection closed, status signal with any value; broken channels of both kinds, replaced; up to 33 links, 150 signals, handles of 0-40 bytes; two clients with an interrupt channel each and 3 events; an interrupt channel taking 0-108 bytes (8 sizes), of which links are then disabled, enabled again, destroyed or closed",
    [E("h_v09_t", 1, 2), E("h_v09_broken", 1), E("h_v09_many", 1), E("h_v09_two", 1), E("h_v09_slow", 1, 2)], "as quick, 5 events", [SIM])
add("V10", "vxi", [E("h_v10_bind"), E("h_v10_register", 1, 2)],
    "3 port pairs set in either order; registration with any two 16-bit ports, either mapping accepted or refused", None, None, [SIM])
add("P01", "vxi", [E("h_p01_query", 1, 2), E("h_p01_udp", 1, 2), E("h_p01_hdr", 1, 2, 3, 4), E("h_p01_many", 1)],
    "a table of 3 mappings and 2 queries (port of, list) with all fields free, by TCP and UDP; any RPC header by UDP; query arguments cut after any byte; any datagram of 0, 3, 4, 8, 11, 12, 28, 32 or 40 bytes, with replies that can and cannot be sent; a table of 130 mappings",
    [E("h_p01_query", 1, 2), E("h_p01_udp_t", 1, 2), E("h_p01_hdr", 1, 2, 3, 4), E("h_p01_many", 1)], "as quick, datagrams of 19 lengths up to 44 bytes", [SIM])
add("P02", "vxi", [E("h_p02_reply", 1, 2, 3), E("h_p02_bytes", 1, 2), E("h_p02_register", 1, 2), E("h_p02_many", 1)],
    "each of 5 client calls with any arguments, by TCP and UDP, answered by success with any result (after the reply to another call, in fragments, byte by byte), every kind of rejection, a reply cut anywhere, a call, the end of the stream; any reply of 0, 3, 4, 8, 12, 20, 24, 28 or 36 bytes; register with the mapping known or not; 300 calls by one client, some answered with errors, garbage or stale replies",
    [E("h_p02_reply", 1, 2, 3), E("h_p02_bytes_t", 1, 2), E("h_p02_register", 1, 2), E("h_p02_many", 1)], "as quick, replies of 20 lengths up to 40 bytes", [SIM])

# ---------------------------------------------------------- raw and telnet ----
LOST = "a client sending up to 8 bytes of two commands and a half, at once or byte by byte, reading or not, with the device free or locked, lost (closed, half closed, reset, read error, write error) before or after the server runs, limit 1 or 2, then a new client; 3 clients with a limit of 1 or 2 leaving in any order; 1-2 connections lost before or failing at accept; 9 sessions in a row for memory"
add("R01", "line", [E("h_r01_split", 1, 2), E("h_r01_resp", 1, 2, 3), E("h_r01_long", 1), E("h_r01_lost", 1, 2), E("h_r01_half"), E("h_r01_limit", 1), E("h_r01_accept", 1), E("h_r01_memory", 1), E("h_r01_config", 1, 2, 3), E("h_r01_many", 1), E("h_r01_big", 1, max_steps=100000000)],
    "any 6 bytes in every chunking, any control character as read and as write terminator, buffers of 1, 2 and 8 bytes, by TCP and unix socket, then end of stream or reset; 3 commands with responses none or any 0-2 bytes, writes accepted in pieces of 1 or 2 bytes or whole, client reading or not; commands of 0-39 bytes with any byte, buffers of 1, 3, 8, 64 bytes; every way to configure the server; many commands in a session; commands and responses up to 600000 bytes; " + LOST,
    [E("h_r01_split_t", 1, 2), E("h_r01_resp_t", 1, 2, 3), E("h_r01_long", 1), E("h_r01_lost", 1, 2), E("h_r01_half"), E("h_r01_limit", 1), E("h_r01_accept", 1), E("h_r01_memory", 1), E("h_r01_config", 1, 2, 3), E("h_r01_many", 1), E("h_r01_big", 1, max_steps=100000000)],
    "as quick with any 8 bytes in every chunking and 4 commands with responses", [SIM])
add("R02", "line", [E("h_r02_q", 1, 2, 3), E("h_r02_preempt", 1), E("h_r02_slow", 1)],
    "2 clients (raw and raw, raw and telnet, telnet and telnet) and one other user of the device: all histories of 5 events out of {command of either client, other user takes the exclusive or a shared lock or the device, releases it}, each before or after the server runs; 1 free scheduling choice at the last step and at the final release; 2 steps of the other user at any spin-lock boundary; a client that does not read",
    [E("h_r02_t", 1, 2, 3), E("h_r02_preempt", 1), E("h_r02_slow", 1)], "as quick, histories of 6 events", [SIM])
add("N01", "line", [E("h_n01_any", 1, 2), E("h_n01_items", 1, 2), E("h_n01_edit", 1, 2), E("h_n01_resp", 1, 2), E("h_n01_long", 1), E("h_n01_neg", 1, 2, 3), E("h_n01_config", 1, 2), E("h_n01_many", 1), E("h_n01_big", 1, max_steps=100000000)],
    "any 6 bytes in every chunking; 2 elements out of {any byte, escaped 0xFF, any other command, any negotiation of any option, a subnegotiation with any 2 bytes, LF, CR LF}, with echo and go-ahead suppression on or off, whole, byte by byte or cut anywhere; 6 bytes and edit commands; 3 pipelined commands with responses none or any 0-2 bytes, writes accepted in pieces; lines of 10 lengths up to 300 bytes; 3 negotiations of any option; every way to configure the server; many commands in a session; commands and responses up to 600000 bytes",
    [E("h_n01_any_t", 1, 2), E("h_n01_items_t", 1, 2), E("h_n01_edit_t", 1, 2), E("h_n01_resp_t", 1, 2), E("h_n01_long", 1), E("h_n01_neg_t", 1, 2, 3), E("h_n01_config", 1, 2), E("h_n01_many", 1), E("h_n01_big", 1, max_steps=100000000)],
    "as quick with any 7 bytes, 3 elements, 7 edit steps, 4 responses, 4 negotiations", [SIM])
add("N02", "line", [E("h_n02_lost", 1, 2), E("h_n02_half"), E("h_n02_limit", 1), E("h_n02_accept", 1), E("h_n02_memory", 1), E("h_n02_bytes", 1), E("h_n02_werr", 1), E("h_n01_neg", 1, 2, 3)],
    "any 6 bytes (whole, byte by byte or cut anywhere) followed by end of stream, reset or write errors; write errors after any byte of a session with negotiations and commands; 3 negotiations of any option; " + LOST,
    [E("h_n02_lost", 1, 2), E("h_n02_half"), E("h_n02_limit", 1), E("h_n02_accept", 1), E("h_n02_memory", 1), E("h_n02_bytes_t", 1), E("h_n02_werr", 1), E("h_n01_neg_t", 1, 2, 3)],
    "as quick with any 7 bytes, 4 negotiations", [SIM])

# ----------------------------------------------------------- all protocols ----
add("M01", "multi", [E("h_m01_q", 1, 2, 3, 4), E("h_m01_srq", 1, 2), E("h_m01_race", 1, 2, 3), E("h_m01_slow", 1, 2)],
    "one client each by HiSLIP, VXI-11, raw socket and telnet: all histories of 5 events out of {HiSLIP exclusive/shared lock, release, VXI-11 lock, unlock, a command of any of the four (VXI-11 waiting or not), HiSLIP session or VXI-11 link closed and reopened}; all histories of 5 status events; one command of each at once with a lock being released, 5 free scheduling choices; one client of any protocol that takes none of its responses (up to 2 commands)",
    [E("h_m01_t", 1, 2, 3, 4), E("h_m01_srq_t", 1, 2), E("h_m01_race_t", 1, 2, 3), E("h_m01_slow", 1, 2)], "as quick, 6 events, 7 scheduling choices", [SIM])
