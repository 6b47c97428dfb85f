#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

LOCK="device/src/lock.rs"; ST="device/src/status.rs"
prop("L01","Lock grants and reports follow the shared/exclusive locking rules",
 "Over any history of exclusive and shared requests, upgrades, releases and handle drops, at most one handle holds the exclusive lock and all shared holders hold the same key. A request is granted exactly when the rules allow it (exclusive: nobody holds the exclusive lock and either no shared lock exists or the requester is one of its holders; shared: nothing is held, or the key equals the current shared key), a refused request changes nothing, and a release gives up everything the handle holds. What handles and lock information report (exclusive held, number of shared holders, who may use the device) always equals the true state, and the reason given for a refusal is one that exists.",
 ["histories","inputs"],"all histories of lock operations by up to three handles, over arbitrary keys; lengths bounded in the check",
 "Unit tests replay five fixed two- or three-step histories with the keys foo/bar; the rules quantify over every history and key.",
 [LOCK],[("try_acquire_exclusive / try_acquire_shared / try_release state machine",LOCK),("drop releases the handle's locks",LOCK)],
 [("SharedLock","exclusive flag, shared key, number of shared holders",LOCK)],["lock_info, can_lock, has_shared, has_exclusive and results of every operation"])
prop("L02","A device is only handed to a handle that may use it at that moment",
 "Whenever a handle is given access to the device, by a non-blocking attempt or by waiting, then at that moment no other handle holds the exclusive lock and, unless the handle itself holds a lock, no other handle holds a shared lock. This holds for every interleaving of waiting, acquiring, releasing and dropping, and at no time do two users have access to the same device.",
 ["schedules","histories"],"all interleavings, at every lock and await point, of a bounded number of concurrent tasks using one device",
 "The existing concurrent lock tests run one fixed schedule on a single-threaded executor; the race between a grant and another handle's lock shows only in particular interleavings.",
 [LOCK],[("permission check before and interruption during the wait for the device",LOCK),("futures Mutex around the device",LOCK)],
 [("listeners","wake-up channels of waiting handles",LOCK)],["device guard returned by try_lock / async_lock of both handle kinds"])
prop("L03","A waiting lock or device request completes once it is permitted",
 "A task that waits for a lock, or for access to the device, and whose request is permitted (and stays permitted, with the device free) completes, whatever the order in which the holders release or drop their locks and in which tasks run; no wake-up is lost. A waiting request whose condition stays unsatisfied keeps waiting and does not complete.",
 ["schedules","histories"],"all interleavings of up to three tasks that acquire, hold, release or drop locks",
 "A lost wake-up needs a release to fall between a failed attempt and the registration of the listener; tests do not control the schedule.",
 [LOCK],[("listen then try again before waiting",LOCK),("notification on release, drop and acquisition",LOCK)],
 [("event","senders of registered listeners",LOCK)],["completion of async_acquire / async_lock"])
prop("L04","Abandoned requests and dropped handles leave nothing behind",
 "A lock or device request that is cancelled while it waits holds neither the lock nor the device afterwards and does not prevent others from getting them, and dropping a handle, at whatever moment, gives up its locks. Repeating attempts, waits and cancellations does not make the memory used by the lock grow without bound.",
 ["histories","schedules"],"all points at which a bounded history of waits is cancelled or a handle dropped; memory measured over a bounded number of repetitions",
 "No test cancels a wait; timeouts and client disconnections do it in the servers all the time.",
 [LOCK],[("Drop of LockHandle",LOCK),("listener registration",LOCK)],[],["later lock and device requests; bytes of live heap"])
prop("S01","A status update reaches every live subscriber and only disturbs none",
 "A status update sent through the status channel is received, with its value and in order, by every subscriber that exists at that time and has room for it; a slow, full or dropped subscriber neither blocks the sender nor costs any other subscriber an update, a subscriber created later does not see earlier updates, and subscribers that are gone leave nothing behind.",
 ["histories","inputs"],"all bounded histories of subscribe, unsubscribe, send and receive",
 "One test sends one value to two receivers.",
 [ST],[("send_status broadcast",ST),("get_new_receiver",ST)],[("senders","live subscribers",ST)],["values received by each subscriber"])
DL="device/src/lib.rs"; DU="device/src/util.rs"
prop("D01","A device behind a box or a lock handle behaves exactly as the device itself",
 "Every request made through Box<D>, a boxed trait object (nested too) or the guard of a lock handle reaches the wrapped device exactly once, as the same request with the same arguments, and its response, status or error comes back unaltered; nothing is answered by the wrapper itself. The devices that come with the crate behave as documented: the echo device returns every command, the simple device answers its commands in any case with and without line end, everything else with its reverse, and its status shows what has happened to it.",
 ["inputs","histories"],"all requests with all arguments and outcomes; all commands up to a bound; all bounded histories of remote, trigger, clear",
 "No test uses a boxed device, and a default method that is not forwarded compiles and looks right.",
 [DL,DU],[("blanket impl Device for Box<DEV>",DL),("EchoDevice, SimpleDevice",DU)],[("rmt, trig, clear","what happened to the simple device",DU)],["requests the device receives, results the caller gets"])

HM="hislip/src/common/messages.rs"; HE="hislip/src/common/errors.rs"; HS="hislip/src/server/mod.rs"
HSY="hislip/src/server/session/synchronous.rs"; HAS="hislip/src/server/session/asynchronous.rs"; HSM="hislip/src/server/session/mod.rs"
notest_h="The crate has no effective HiSLIP tests; "
prop("H01","Any bytes on a HiSLIP connection are answered, and none crash the server",
 "Whatever bytes a HiSLIP client sends and wherever the stream is cut, the server does not crash and everything it sends is a sequence of complete, well-formed HiSLIP messages whose length fields match their payloads. The server stays in step with the client's message boundaries: a message whose payload exceeds the server's limit, an unknown message type or a vendor-specific message is answered with the corresponding non-fatal error and the next message is processed normally, a message cut short by the end of the stream has no effect, and a bad prologue is answered with a fatal error after which the connection closes. Connections that are lost do not keep the server from accepting others.",
 ["inputs","histories"],"all byte strings up to a bound on both kinds of channel, before and after initialisation, in every chunking",
 notest_h+"malformed headers, lengths and truncations form an input space no sample settles.",
 [HM,HE,HS,HSY,HAS],[("Message::read_from / write_to",HM),("error mapping",HE),("per-channel dispatch",HSY)],[],["bytes sent to the client, connection state, device calls"])
prop("H02","HiSLIP initialisation pairs channels correctly and refuses the rest",
 "Initialize for a known sub-address (the default one if empty) is answered with InitializeResponse carrying the smaller of the client's and server's protocol versions and a session id; an unknown or non-UTF-8 sub-address, or any other message before initialisation, is answered with the fatal InvalidInitialization error and the connection closes. AsyncInitialize is accepted (with the configured vendor id) exactly once per live session; an unknown session id, or a second AsyncInitialize for a session, gets the fatal InvalidInitialization error. A session works with the device it named, and its lock, and with no other, however the server was built.",
 ["inputs","histories"],"all first messages and parameters (version, sub-address, session id), and all bounded orders of connection set-up",
 notest_h+"the outcome depends on arbitrary header values and on histories across two connections.",
 [HS,HSM,HM],[("Server::handle_session",HS),("SharedSession state",HSM)],[("sessions","live sessions by id",HS)],["responses on the initialising connections"])
prop("H03","Live HiSLIP sessions have distinct ids and are limited in number",
 "At any time all live sessions have different ids, at most the configured maximum number of sessions is live, and an Initialize beyond the limit gets the fatal MaximumClientsExceeded error without disturbing others. When a session's connections are gone its locks are released, its id no longer accepts an async channel, its place can be used by a new client, and nothing of it stays in memory.",
 ["histories","schedules"],"all bounded histories of connecting and disconnecting clients, in every order",
 notest_h+"id reuse and the limit depend on the history of connections.",
 [HS],[("create_session, new_session_id, gc_sessions",HS),("weak session references",HS)],[("session_id","last id handed out",HS)],["InitializeResponse session ids and fatal errors"])
prop("H04","Each complete HiSLIP program message is executed exactly once, intact",
 "The device executes exactly the concatenation of the payloads of the Data messages up to and including each DataEnd, once per DataEnd and in the order sent, and nothing else: not a message still incomplete, and nothing before both channels are established (data then gets the fatal AttemptUseWithoutBothChannels error). A Trigger message triggers the device exactly once, in order with the data. If a short identification response is configured, exactly the identification query (in any case) is answered with it and not passed to the device.",
 ["inputs","histories"],"all bounded sequences of data, trigger and end messages with arbitrary payloads and ids, in every chunking of the stream",
 notest_h+"the guarantee is about all splits and orders of messages.",
 [HSY],[("buffer accumulation and execute on DataEnd",HSY)],[("buffer","accumulated program message",HSY)],["arguments and order of device calls"])
prop("H05","HiSLIP responses are delivered complete, in order and within client limits",
 "A device response is sent as messages whose payloads concatenate to exactly the response, none larger than the maximum message size the client negotiated, all carrying the message id of the DataEnd that caused it, all of type Data except the last, which is DataEnd; responses come in the order of their commands and a command without response sends nothing. No maximum size a client may send makes the server fail.",
 ["inputs"],"all response lengths and contents up to a bound, all client maximum sizes and message ids",
 notest_h+"chunk boundaries, exact multiples and extreme sizes are rare inputs.",
 [HSY,HAS],[("response chunking",HSY),("AsyncMaximumMessageSize",HAS)],[("max_message_size","client limit",HSM)],["messages on the synchronous channel"])
prop("H06","HiSLIP lock requests are answered truthfully and take effect",
 "AsyncLock requests and releases behave as the locking rules say: a request is answered success exactly when the lock was granted, failure when it could not be granted within its timeout, and error when the request is invalid; a release is answered with the kind of lock released, or error if none was held. AsyncLockInfo reports whether the exclusive lock is held and how many clients share the lock. A session's locks disappear with the session.",
 ["inputs","histories","schedules"],"all bounded histories of lock traffic from two sessions with arbitrary lock strings and timeouts",
 notest_h+"lock outcomes depend on the interleaving of several clients.",
 [HAS,HM,LOCK],[("AsyncLock, AsyncLockInfo handling",HAS),("lock control codes",HM)],[],["AsyncLockResponse and AsyncLockInfoResponse codes"])
prop("H07","HiSLIP control requests act on the device as specified",
 "AsyncRemoteLocalControl requests 0 to 6 set remote/local, remote enable and local lockout as the HiSLIP table says and are acknowledged, any other code gets the UnrecognizedControlCode error and has no effect. AsyncStatusQuery is answered with the device's status byte in which only the message-available bit is computed by the server, and AsyncMaximumMessageSize is answered with the server's own limit; requests of the wrong size get an error. Unsupported message types get an error and leave the session usable; only messages for secure connections, in a session of protocol 2.0, get the fatal error for a failed secure connection.",
 ["inputs","histories"],"all control codes, status bytes, parameters and payloads up to a bound",
 notest_h+"the response mapping ranges over all codes and status values.",
 [HAS],[("async channel dispatch",HAS)],[("enable_remote","remote enabled",HSM)],["device calls and responses on the asynchronous channel"])
prop("H08","HiSLIP device clear discards exactly what preceded it",
 "AsyncDeviceClear is always acknowledged, and after it everything received on the synchronous channel up to DeviceClearComplete is discarded without being executed, including data accumulated before; DeviceClearComplete clears the device if the session may use it and is answered with DeviceClearAcknowledge, echoing the requested overlap mode. Afterwards the session works as after initialisation, and commands sent later are executed intact.",
 ["schedules","histories","inputs"],"all interleavings of the two channels around a device clear",
 notest_h+"device clear is a race between two connections.",
 [HAS,HSY],[("clear channel between async and sync sessions",HSM),("clear_buffer",HSY)],[("clear","pending clear event",HSM)],["device calls and acknowledgements on both channels"])
prop("H09","HiSLIP service requests reach the client without harming the session",
 "Every time the device status is signalled while no service request is outstanding, the asynchronous channel carries one AsyncServiceRequest with the signalled status byte; further signals before the client queries the status send nothing more, and after the query the next signal is sent again. Service requests never close a session or corrupt or lose a message in either direction, whatever the moment they occur.",
 ["schedules","histories"],"all interleavings of status signals with partially received asynchronous messages",
 notest_h+"the signal may arrive at any point of a message being received.",
 [HAS,ST],[("select between message and status stream",HAS)],[("srq_bit","service request outstanding",HAS)],["AsyncServiceRequest and other asynchronous messages"])
prop("H10","HiSLIP commands run only while their session may use the device",
 "A command or trigger on a session's synchronous channel takes effect only at a time when no other client holds an exclusive lock and, unless the session itself holds a lock, no other client holds a shared lock; otherwise it waits, unexecuted, and is executed (in order, once) when the lock goes away. Status queries remain possible meanwhile. A connection whose client does not take what it is sent delays no other session, and keeps neither the device nor another session's locks.",
 ["schedules","histories"],"all interleavings of two sessions' lock and data traffic and of an independent lock holder",
 notest_h+"isolation is a property of all schedules.",
 [HSY,LOCK],[("async_lock before each message",HSY)],[],["time of device calls relative to lock state"])
prop("H11","HiSLIP codes keep their meaning when encoded and decoded",
 "Every message type, error code and protocol version is encoded as the code the protocol assigns to it and decoded from no other code; decoding a code and encoding the result gives the code back, for every code, and unassigned message types are not taken for assigned ones. A protocol version keeps its major and minor number and its order, and shares a message parameter with the session id without either altering the other.",
 ["inputs"],"all codes, versions and session ids",
 "The tests use the few codes that occur in a session; the tables are public and total.",
 ["hislip/src/common/messages.rs","hislip/src/common/errors.rs","hislip/src/common/mod.rs"],
 [("MessageType::{from,get}_message_type","hislip/src/common/messages.rs"),("error_code / from_error_code","hislip/src/common/errors.rs"),("Protocol","hislip/src/common/mod.rs")],[],["results of the conversions"])

VO="vxi11/src/common/onc_rpc/mod.rs"; VX="vxi11/src/common/onc_rpc/xdr.rs"; VR="vxi11/src/common/onc_rpc/record.rs"; VB="vxi11/src/common/xdr/basic.rs"
VT="vxi11/src/common/vxi11/xdr.rs"; VC="vxi11/src/server/vxi11/core_service.rs"; VA="vxi11/src/server/vxi11/abort_service.rs"; VM="vxi11/src/server/vxi11/mod.rs"; VI="vxi11/src/server/vxi11/intr_client.rs"
PS="vxi11/src/server/portmapper.rs"; PC="vxi11/src/client/portmapper.rs"; PX="vxi11/src/common/portmapper/xdr.rs"
prop("V01","Every RPC call is answered as ONC RPC requires",
 "Every well-formed call gets exactly one reply, in order, carrying the call's transaction id: a wrong RPC version is denied with the supported range, unsupported credentials or verifiers are denied with an authentication error, an unknown program, version or procedure gets the corresponding accepted error with the supported version range, the null procedure succeeds, and arguments that cannot be decoded get the garbage-arguments status. After any of these the connection keeps working, and no rejected call has an effect.",
 ["inputs"],"all call headers (ids, versions, programs, procedures, flavours) and bounded argument bytes",
 "Tests call a handful of valid procedures through a real client.",
 [VO,VX,VC,VA,PS],[("RpcService::handle_message",VO),("program/version/procedure dispatch",VC)],[],["reply records"])
prop("V02","RPC records and XDR data are decoded exactly or rejected, never guessed",
 "A call means the same however it is split into record fragments and however the bytes arrive, and two calls never run into each other. A record or argument that is cut short, claims more bytes than are present, or exceeds the size limit is never acted upon as if complete; whatever bytes a client sends, the server does not crash, other connections are unaffected, every client is served in its turn however many came and went before, and everything the server sends is a well-formed record.",
 ["inputs"],"all byte strings up to a bound, all splits into fragments and reads",
 "Two tests reassemble two constant records; truncation and length lies are never tried.",
 [VR,VB,VX,VT],[("read_record / write_record",VR),("XDR decoders",VB)],[],["replies, device calls, connection state"])
prop("V03","VXI-11 links are created, distinguished and destroyed correctly",
 "Creating a link to an existing device yields a link id different from every live link's and the advertised abort port and maximum receive size; for an unknown device it fails with the invalid-address error, and if a requested lock cannot be obtained within the lock timeout it fails with the locked-by-another-link error and leaves no link behind. Every operation naming an id that is not a live link of that connection gets the invalid-link error and has no effect; destroying a link, or closing the connection, releases its locks, makes its id invalid and leaves nothing of it in memory.",
 ["histories","inputs"],"all bounded histories of creating, using and destroying links over one or two connections, with arbitrary link ids",
 "The tests create one link per connection.",
 [VC,VM],[("CREATE_LINK / DESTROY_LINK",VC),("new_link / remove_link / Link drop",VM)],[("links","live links per session and abort table",VM)],["replies and lock state"])
prop("V04","VXI-11 writes deliver each program message to the device once, intact",
 "The data of successive writes on a link accumulates until a write with the END flag, at which the device executes exactly the concatenation, once; every successful write reports the number of bytes it accepted, and a write that fails (locked, aborted, timed out, invalid link) adds nothing and executes nothing. Links do not see each other's data.",
 ["histories","inputs"],"all bounded sequences of writes with arbitrary data and flags over two links",
 "The tests write one complete message at a time.",
 [VC],[("DEVICE_WRITE",VC)],[("in_buf","accumulated input per link",VM)],["device calls and reported sizes"])
prop("V05","VXI-11 reads return the response bytes in order, each exactly once",
 "Successive reads on a link return the device's responses byte for byte, none lost, duplicated or reordered; each read returns at most the requested size and, if the term-char flag is set, stops after the first term char. The reason bits say truthfully why the read ended (requested size reached, term char matched, end of the response data), and no request size, flag or term char makes the server fail; a read that fails (locked, invalid link) consumes nothing.",
 ["inputs","histories"],"all responses up to a bound, all request sizes, flags and term chars, over several reads",
 "The tests read a whole short response at once, without term char.",
 [VC],[("DEVICE_READ",VC)],[("out_buf","pending response per link",VM)],["data and reason of each read"])
prop("V06","VXI-11 status, trigger, clear and remote/local act on the device as asked",
 "Reading the status byte returns the device's status with exactly the message-available bit replaced by whether this link has response data pending; trigger, clear, remote and local call the corresponding device function once and report its outcome with the matching error code. Clear also discards the link's pending input and output; unsupported operations report operation-not-supported. Failing operations (locked, invalid link) do not touch the device.",
 ["inputs","histories"],"all status bytes, device errors and pending-data states, in any bounded order",
 "Tests use devices that always succeed and report status 0.",
 [VC,VM,VT],[("DEVICE_READSTB, DEVICE_TRIGGER, DEVICE_CLEAR, DEVICE_REMOTE, DEVICE_LOCAL, DEVICE_DOCMD",VC),("error code mapping",VM)],[],["device calls and replies"])
prop("V07","VXI-11 locking protects the device and is reported truthfully",
 "A link that locks the device holds it exclusively until it unlocks, is destroyed or its connection closes; meanwhile every device operation of other links fails with the locked-by-another-link error (after waiting up to the lock timeout if asked to wait) and has no effect on the device. Lock and unlock report no error exactly when they took effect, and otherwise the code saying why; a waiting operation succeeds if the lock is released in time.",
 ["histories","schedules"],"all bounded interleavings of lock traffic and operations of two links on one or two connections, with timeouts at every point",
 "Tests lock with a single client.",
 [VC,LOCK],[("lock_device, DEVICE_LOCK, DEVICE_UNLOCK",VC)],[],["replies and device calls relative to lock state"])
prop("V08","A VXI-11 abort ends the pending wait of exactly the named link",
 "An abort for a live link makes the operation that is waiting for a lock on that link finish with the abort error and without effect; it does not affect other links, the link stays usable afterwards, and an abort for an id that is not a live link gets the invalid-link error. An abort when nothing is waiting succeeds and does not end a later operation.",
 ["schedules","histories"],"all interleavings of a waiting operation, an abort and other links' traffic",
 "No test uses the abort channel.",
 [VA,VC,VM],[("DEVICE_ABORT and the link's abort channel",VA)],[("abort","pending abort signal per link",VM)],["replies on core and abort channel"])
prop("V09","VXI-11 service requests go to clients that enabled them, and only to those",
 "While a link has service requests enabled and its connection has an interrupt channel, each status signal of the device sends one interrupt call carrying exactly the handle given at enabling; nothing is sent for links that are disabled or destroyed, or whose connection is closed. Creating a second interrupt channel, or destroying one that does not exist, is refused with the proper error. An interrupt channel carries whole calls only, however slowly its client takes them, and does not delay another client's.",
 ["histories","schedules"],"all bounded histories of enabling, disabling, channel creation/destruction and status signals",
 "No test uses service requests.",
 [VC,VI,ST],[("DEVICE_ENABLE_SRQ task",VC),("CREATE_INTR_CHAN / DESTROY_INTR_CHAN",VC)],[("srq","interrupt channel of the session",VC)],["records on the interrupt connection and replies"])
prop("V10","A VXI-11 server is reachable at the ports it announces",
 "The core service listens on the configured core port and the abort service on the configured abort port, create_link advertises exactly the port on which the abort service listens, and registration at the port mapper announces both services with these ports, each once, and succeeds exactly if both mappings are accepted; dynamic ports, which cannot be announced, are refused.",
 ["inputs"],"all port numbers and all answers of the port mapper",
 "The tests serve on listeners they bind themselves and never register.",
 [VM,VC,VA,PC],[("bind",VC),("bind",VA),("register_portmap",VM)],[],["ports listened on, calls to the port mapper, create_link replies"])
prop("P01","The port mapper answers every query from its table and survives any datagram",
 "A port query returns the port of the first registered mapping with the same program, version and protocol, or 0 if there is none; a dump returns exactly the registered mappings in order; both over UDP and TCP. No datagram or byte stream makes the port mapper stop serving later queries: malformed ones are ignored or refused.",
 ["inputs"],"all mapping tables of bounded size, all queries, all datagrams up to a bound followed by a valid query",
 "Tests query a fixed table with valid requests.",
 [PS,VO,PX],[("StaticPortMap::call",PS),("serve_udp_socket",VO)],[],["replies"])
prop("P02","The port mapper client reports what the server answered, or an error",
 "A client call sends exactly one well-formed call with the given arguments, and returns the decoded result of the reply to that call: a success only for an accepted, successful reply with the call's transaction id, and the matching error for every rejection. No reply bytes, including truncated, foreign or nonsensical ones, make the client crash or return data that the reply did not contain.",
 ["inputs","histories"],"all reply bytes up to a bound, over TCP and UDP, for each client procedure",
 "Tests talk to a well-behaved rpcbind only.",
 [PC,VO,VX,PX],[("StreamRpcClient / UdpRpcClient call",VO),("reply decoding",VX)],[("xid","transaction id",VO)],["returned results and bytes sent"])

RW="raw/src/server/mod.rs"; TN="telnet/src/server/mod.rs"
prop("R01","Raw socket commands are framed exactly and answered in order",
 "The device executes exactly the terminated commands a client sends, without the terminator, each once and in order, independent of how the bytes are split into reads, of the configured buffer size and of the terminators chosen; an unterminated rest at the end of the stream is never executed in altered form. The client receives exactly the responses, each followed by the write terminator, in the order of the commands, and a command without response sends nothing; an I/O error or the end of the stream ends only that connection: other clients, also those waiting because of the connection limit, are served, and nothing of the lost connection stays behind.",
 ["inputs"],"all byte streams up to a bound, all chunkings of reads and writes, all terminators",
 "The tests send one terminated command over loopback.",
 [RW],[("Server::process_client",RW)],[("cmd","line being accumulated",RW)],["device calls and bytes written"])
prop("R02","Raw socket commands run only when no other client holds a lock",
 "A command received on a raw or telnet connection is executed only at a time when no other client holds a shared or exclusive lock on the device; until then it waits unexecuted, and it is executed once, and answered, after the lock is gone. Two clients never execute at the same time, and no client receives another's response.",
 ["schedules"],"all interleavings of two clients and an independent lock holder",
 "The tests use a single client without locks.",
 [RW,TN,LOCK],[("async_lock around execute",RW),("async_lock around execute",TN)],[],["device calls relative to lock state, bytes written to each client"])
prop("N01","Telnet commands are framed, edited and escaped exactly",
 "The device executes exactly the lines a telnet client sends, without their line ending, each once and in order, after telnet processing: doubled 0xFF is one data byte, commands and negotiations are not data, erase-character and erase-line edit the pending line. The result does not depend on how the bytes are split into reads; every response is sent with 0xFF doubled and followed by CR LF, in the order of the commands; the prompt, followed by IAC GA unless suppressed, is sent once at the start and after each line.",
 ["inputs"],"all byte streams up to a bound in every chunking",
 "The tests send one line in one piece.",
 [TN],[("Server::process_client",TN),("libtelnet-rs parser",TN)],[("cmd","line being accumulated",TN)],["device calls and bytes written"])
prop("N02","A telnet connection ends when the client is gone, and no input crashes it",
 "When the client closes the stream or an I/O error occurs, the telnet session ends instead of writing on, releasing its resources, and other and later clients are served. No byte sequence, including incomplete or nonsensical telnet commands, makes the server crash; every request to change an option is answered once (accepted only for those the server has: binary, echo, suppress go-ahead), no answer is sent to a request that changes nothing, and agreed options take effect.",
 ["inputs","fault_sequences"],"all byte streams up to a bound, ended at any point, with write errors at any point",
 "The test client closes its socket only after the test has finished.",
 [TN],[("read/write loop",TN)],[],["termination of the session, bytes written"])
prop("M01","Clients of different protocols share the device, its locks and its status",
 "When HiSLIP, VXI-11, raw socket and telnet servers are given the same device, lock and status, their clients behave as clients of one instrument: a lock taken through one protocol excludes the clients of all others in the way their protocol defines (refused, or waiting until the lock is gone), lock information counts the holders of every protocol, a lock goes away with its client, whatever its protocol; every command is executed exactly once, in its client's order, and answered to that client alone; and every status change is reported once to the HiSLIP and VXI-11 clients that asked for it, and disturbs no other channel. A client that does not take its responses keeps none of the others from working.",
 ["histories","schedules"],"all bounded histories of one client of each protocol locking, releasing, sending commands, closing and reconnecting, and of status changes; several orders of concurrent tasks",
 "No test runs two protocols on one device; the examples do.",
 [LOCK,ST,HSY,HAS,VC,RW,TN],[("LockHandle shared by the servers",LOCK),("async_lock around every device call of each server",LOCK),("status Sender shared by the servers",ST)],[],["device calls relative to lock state, messages on every channel"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),[ (p["id"],len(p["title"])) for p in P if len(p["title"])>80])
