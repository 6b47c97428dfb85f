//! The line based servers (crates lxi-socket and lxi-telnet): properties R01, R02,
//! N01 and N02. The servers run unmodified on the simulated network; the harness is
//! their clients and the other users of the device.
use async_std::net::TcpStream;
use async_std::sim::{self, LinkCtl};
use lxi_device::lock::{LockHandle, Mutex, MutexGuard, SharedLock, SpinMutex};
use lxi_socket::server::ServerConfig as RawConfig;
use lxi_telnet::server::ServerConfig as TelConfig;
use std::io;
use std::sync::Arc;
use symrt::dev::{self, Dev};
use symrt::*;

const RAW_PORT: u16 = 5025;
const TEL_PORT: u16 = 5024;
const UNIX_PORT: u16 = 60001;

struct Env {
    dev: Arc<Mutex<Dev>>,
    lock: Arc<SpinMutex<SharedLock>>,
}
impl Env {
    fn new() -> Env {
        Env { dev: Arc::new(Mutex::new(Dev)), lock: SharedLock::new() }
    }
    /// Another user of the device.
    fn other(&self) -> LockHandle<Dev> {
        LockHandle::new(self.lock.clone(), self.dev.clone())
    }
    fn raw(&self, cfg: RawConfig) {
        let (l, d) = (self.lock.clone(), self.dev.clone());
        sim::spawn_any(cfg.build().accept(("127.0.0.1", RAW_PORT), l, d));
        sim::run();
    }
    fn unix(&self, cfg: RawConfig) {
        let (l, d) = (self.lock.clone(), self.dev.clone());
        sim::spawn_any(cfg.build().accept_unix("/socket", l, d));
        sim::run();
    }
    fn tel(&self, limit: usize) {
        let (l, d) = (self.lock.clone(), self.dev.clone());
        let s = TelConfig::default().read_buffer(4).backpressure(limit).build();
        sim::spawn_any(s.accept(("127.0.0.1", TEL_PORT), l, d));
        sim::run();
    }
}
fn rawcfg() -> RawConfig {
    RawConfig::default().read_buffer(4)
}
fn connect(port: u16) -> TcpStream {
    let c = sim::connect(port).unwrap();
    sim::run();
    c
}
/// Everything the server sent, also when its writes wait for the client.
fn drain(c: &TcpStream) -> Vec<u8> {
    let mut v = Vec::new();
    loop {
        sim::run();
        let b = c.sim_take();
        if b.is_empty() {
            return v;
        }
        v.extend_from_slice(&b);
    }
}
/// Deliver `b` cut after byte i for every set bit i of `mask`.
fn feed_cut(c: &TcpStream, b: &[u8], mask: usize) {
    let mut cur = Vec::new();
    for i in 0..b.len() {
        cur.push(b[i]);
        if mask == usize::MAX || (i < 63 && mask >> i & 1 == 1) || i + 1 == b.len() {
            c.sim_feed(&cur);
            sim::run();
            cur.clear();
        }
    }
}
/// Deliver in one of: whole, byte by byte, cut anywhere.
fn feed_some(c: &TcpStream, b: &[u8]) {
    let m = match choice(b.len() + 1) {
        0 => 0,
        1 => usize::MAX,
        k => 1 << (k - 2),
    };
    feed_cut(c, b, m)
}
fn no_response(_: &[u8]) -> Option<Vec<u8>> {
    None
}
fn empty_response(_: &[u8]) -> Option<Vec<u8>> {
    Some(Vec::new())
}
fn cmds_eq(want: &[Vec<u8>], msg: &str) {
    let got = dev::execs();
    if got.len() != want.len() {
        fail(msg);
        return;
    }
    for i in 0..got.len() {
        check_eq(&got[i], &want[i], msg);
    }
}

/// Prepared responses, used in order.
static RESP: Global<Vec<Option<Vec<u8>>>> = Global::new(Vec::new());
fn prepared(_: &[u8]) -> Option<Vec<u8>> {
    let n = dev::execs().len();
    RESP.with(|r| if n <= r.len() { r[n - 1].clone() } else { None })
}
fn any_resp(max: usize) -> Option<Vec<u8>> {
    match choice(max + 2) {
        0 => None,
        k => Some(any_vec(k - 1)),
    }
}
fn any_control() -> u8 {
    let t = any_u8();
    assume(t.is_ascii_control());
    t
}

// ------------------------------------------------------------------- R01 ----

const R_CMD: &str = "the commands executed are not exactly the terminated ones that were sent";
const R_OUT: &str = "the client does not receive exactly the responses, each with its terminator, in order";

/// Any bytes, any chunking, any terminators, small buffers: the framing.
fn r01_split(n: usize) {
    let env = Env::new();
    let rt = any_control();
    let wt = any_control();
    let cfg = RawConfig::default().read_buffer([1, 2, 8][choice(3)]).read_termination(rt).write_termination(wt);
    let port = if choice(2) == 0 {
        env.raw(cfg);
        RAW_PORT
    } else {
        env.unix(cfg);
        UNIX_PORT
    };
    let b = any_vec(n);
    let c = connect(port);
    feed_cut(&c, &b, choice(1 << (n - 1)));
    let early = dev::execs().len();
    match choice(2) {
        0 => c.sim_close_write(),
        _ => c.sim_reset(),
    }
    sim::run();
    let mut want = Vec::new();
    let mut out = Vec::new();
    let mut cur = Vec::new();
    for &x in &b {
        if x == rt {
            out.extend_from_slice(&cur);
            out.push(wt);
            want.push(std::mem::take(&mut cur));
        } else {
            cur.push(x);
        }
    }
    cover(1 + (want.len() > 1) as u32);
    check(early == want.len(), "a terminated command is not executed when it arrives");
    cmds_eq(&want, R_CMD);
    check_eq(&c.sim_take(), &out, R_OUT);
    check(c.sim_peer_closed(), "a connection is kept after its client has gone");
    obs(want.len() as u64);
}
fn h_r01_split() {
    r01_split(6)
}
fn h_r01_split_t() {
    r01_split(8)
}

/// Every kind of response, writes accepted in pieces, client slow or not.
fn r01_resp(n: usize) {
    let env = Env::new();
    let wt = any_control();
    let mw = [usize::MAX, 1, 2][choice(3)];
    sim::set_max_write(mw);
    env.raw(rawcfg().write_termination(wt));
    let c = connect(RAW_PORT);
    let slow = choice(2) == 1;
    if slow {
        c.sim_limit_peer_writes(1, mw);
    }
    dev::set_respond(prepared);
    let mut b = Vec::new();
    let mut want = Vec::new();
    let mut out = Vec::new();
    for i in 0..n {
        let r = any_resp(2);
        match &r {
            None => cover(1),
            Some(r) => {
                cover(2);
                out.extend_from_slice(r);
                out.push(wt);
            }
        }
        RESP.with(|v| v.push(r));
        let cmd = vec![b'a' + i as u8; i];
        b.extend_from_slice(&cmd);
        b.push(b'\n');
        want.push(cmd);
    }
    feed_cut(&c, &b, [0, usize::MAX][choice(2)]);
    if slow && mw < 9 && out.len() > mw {
        check(c.sim_avail() <= mw, "harness: more was written than the client takes");
        cover(3);
    }
    let got = drain(&c);
    cmds_eq(&want, R_CMD);
    check_eq(&got, &out, R_OUT);
    check(!c.sim_peer_closed(), "a connection is closed while its client uses it");
}
fn h_r01_resp() {
    r01_resp(3)
}
fn h_r01_resp_t() {
    r01_resp(4)
}

/// Commands longer than every buffer.
fn h_r01_long() {
    let env = Env::new();
    let rb = [1, 3, 8, 64][choice(4)];
    env.raw(RawConfig::default().read_buffer(rb));
    let c = connect(RAW_PORT);
    let n = choice(40);
    let m = choice(4);
    let mut b: Vec<u8> = (0..n).map(|i| b'A' + (i % 26) as u8).collect();
    let x = any_u8();
    assume(x != b'\n');
    if n > 0 {
        b[n / 2] = x;
    }
    let long = b.clone();
    let short = vec![b'z'; m];
    b.push(b'\n');
    b.extend_from_slice(&short);
    b.push(b'\n');
    // whole, or in pieces of 1, 7 or the buffer's size
    let k = [b.len(), 1, 7, rb][choice(4)];
    let mut i = 0;
    while i < b.len() {
        let e = if i + k < b.len() { i + k } else { b.len() };
        c.sim_feed(&b[i..e]);
        if k != 7 {
            sim::run();
        }
        i = e;
    }
    sim::run();
    cover(1);
    cmds_eq(&[long, short], R_CMD);
    check_eq(&c.sim_take(), &b, R_OUT);
}

/// A line server: (port, whether telnet).
fn start_kind(env: &Env, k: usize, limit: usize) -> u16 {
    match k {
        0 => {
            env.raw(rawcfg().backpressure(limit));
            RAW_PORT
        }
        1 => {
            env.unix(rawcfg().backpressure(limit));
            UNIX_PORT
        }
        _ => {
            env.tel(limit);
            TEL_PORT
        }
    }
}
const PROMPT: &[u8] = b"SCPI> \xff\xf9";
/// What a server sends for one command answered with `r`.
fn answer(k: usize, r: &[u8]) -> Vec<u8> {
    let mut v = r.to_vec();
    if k == 2 {
        v.extend_from_slice(b"\r\n");
        v.extend_from_slice(PROMPT);
    } else {
        v.push(b'\n');
    }
    v
}
fn greeting(k: usize) -> Vec<u8> {
    if k == 2 {
        PROMPT.to_vec()
    } else {
        Vec::new()
    }
}
/// A new client is served as if nothing had happened.
fn serves(c: &TcpStream, k: usize, msg: &str) {
    dev::take_log();
    dev::set_respond(|c| Some(c.to_vec()));
    c.sim_feed(b"new\n");
    let got = drain(c);
    let mut want = greeting(k);
    want.extend_from_slice(&answer(k, b"new"));
    cmds_eq(&[b"new".to_vec()], msg);
    check_eq(&got, &want, msg);
}
const GONE: &str = "the server does not serve a new client properly after another one was lost";

/// A client lost at any point of its session: nothing else is affected.
fn lost(k: usize) {
    let env = Env::new();
    let base = sim::tasks_alive();
    let limit = 1 + choice(2);
    let port = start_kind(&env, k, limit);
    check(sim::tasks_alive() == base + 1, "harness: one task listens");
    let mut h = env.other();
    let locked = choice(2) == 1;
    if locked {
        check(h.try_acquire_exclusive().is_ok(), "harness: lock");
    }
    // what the client sends: two commands and the beginning of a third
    let b: &[u8] = b"ab\ncd\nef";
    let n = choice(b.len() + 1);
    let c = sim::connect(port).unwrap();
    if choice(2) == 1 {
        sim::run();
    }
    if choice(2) == 1 {
        // the client reads nothing: writes wait
        c.sim_limit_peer_writes(if k == 2 { 2 } else { 0 }, 64);
    }
    match choice(2) {
        0 => c.sim_feed(&b[..n]),
        _ => {
            for i in 0..n {
                c.sim_feed(&b[i..i + 1]);
            }
        }
    }
    if choice(2) == 1 {
        sim::run();
    }
    match choice(5) {
        0 => c.sim_close(),
        1 => c.sim_reset(),
        2 => {
            c.sim_fail_peer_writes(io::ErrorKind::BrokenPipe);
            c.sim_close_write();
        }
        3 => {
            c.sim_fail_peer_reads(io::ErrorKind::TimedOut);
            c.sim_limit_peer_writes(usize::MAX, usize::MAX);
        }
        // half closed: still reads
        _ => {
            c.sim_close_write();
            c.sim_limit_peer_writes(usize::MAX, usize::MAX);
            cover(2);
        }
    }
    sim::run();
    let full = n / 3;
    if locked {
        check(dev::execs().is_empty(), "a command is executed while another client holds the lock");
        h.force_release();
        sim::run();
    }
    let ex = dev::execs();
    check(ex.len() <= full, R_CMD);
    for i in 0..ex.len() {
        check_eq(&ex[i], &b[3 * i..3 * i + 2], R_CMD);
    }
    check(sim::tasks_alive() == base + 1, "a session goes on although its client is gone");
    check(c.sim_peer_closed() && c.sim_peer_gone(), "a connection is kept after its client has gone");
    let i = h.lock_info();
    check(!i.0 && i.1 == 0, "a session that ended still holds a lock");
    check(h.try_lock().is_ok(), "a session that ended still has the device");
    cover(1);
    let d = sim::connect(port).unwrap();
    sim::run();
    serves(&d, k, GONE);
}
fn h_r01_lost() {
    lost(choice(2))
}
/// Half-closed client: everything sent before is executed and answered.
fn half(k: usize) {
    let env = Env::new();
    let port = start_kind(&env, k, 2);
    let x = any_vec(2);
    assume(x[0] != b'\n' && x[1] != b'\n' && x[0] != 255 && x[1] != 255 && x[0] != b'\r' && x[1] != b'\r');
    let c = connect(port);
    c.sim_feed(&[x[0], b'\n']);
    if choice(2) == 1 {
        sim::run();
    }
    c.sim_feed(&[x[1], b'\n']);
    c.sim_close_write();
    let got = drain(&c);
    let mut want = greeting(k);
    want.extend_from_slice(&answer(k, &x[..1]));
    want.extend_from_slice(&answer(k, &x[1..]));
    cmds_eq(&[vec![x[0]], vec![x[1]]], R_CMD);
    check_eq(&got, &want, R_OUT);
    check(c.sim_peer_closed(), "a connection is kept after its client has gone");
}
fn h_r01_half() {
    half(choice(2))
}
/// The connection limit: more clients wait their turn, and get it.
fn limit(k: usize) {
    let env = Env::new();
    let lim = 1 + choice(2);
    let port = start_kind(&env, k, lim);
    let cs: Vec<TcpStream> = (0..3).map(|_| sim::connect(port).unwrap()).collect();
    for (i, c) in cs.iter().enumerate() {
        c.sim_feed(&[b'a' + i as u8, b'\n']);
    }
    sim::run();
    let mut done = 0;
    for turn in 0..3 {
        let served: Vec<usize> = (0..3).filter(|i| cs[*i].sim_avail() > 0).collect();
        check(served.len() <= lim, "more clients than the limit are served at once");
        check(served.len() == if 3 - turn < lim { 3 - turn } else { lim }, "a client is not served although the limit allows it");
        if served.is_empty() {
            return;
        }
        let s = served[choice(served.len())];
        let mut want = greeting(k);
        want.extend_from_slice(&answer(k, &[b'a' + s as u8]));
        check_eq(&cs[s].sim_take(), &want, R_OUT);
        done += 1;
        match choice(2) {
            0 => cs[s].sim_close_write(),
            _ => cs[s].sim_reset(),
        }
        sim::run();
        check(cs[s].sim_avail() == 0, R_OUT);
    }
    check(done == 3 && dev::execs().len() == 3, "a waiting client never gets its turn");
    cover(1);
}
fn h_r01_limit() {
    limit(choice(2))
}
/// Connections lost before the server takes them.
fn accept(k: usize) {
    let env = Env::new();
    let port = start_kind(&env, k, 2);
    for _ in 0..1 + choice(2) {
        match choice(3) {
            0 => {
                let c = sim::connect(port).unwrap();
                c.sim_reset();
            }
            1 => {
                sim::fail_accept(port, io::ErrorKind::ConnectionAborted);
            }
            _ => {
                sim::fail_accept(port, io::ErrorKind::Other);
            }
        }
        if choice(2) == 1 {
            sim::run();
        }
    }
    let d = sim::connect(port).unwrap();
    sim::run();
    while sim::fire_timer() {
        sim::run();
    }
    cover(1);
    serves(&d, k, "the server does not accept connections any more after one was lost");
}
fn h_r01_accept() {
    accept(choice(2))
}
/// Sessions leave nothing behind.
fn memory(k: usize) {
    let env = Env::new();
    let port = start_kind(&env, k, 2);
    let how = choice(3);
    let mut at = 0;
    for i in 0..9 {
        let c = sim::connect(port).unwrap();
        sim::run();
        c.sim_feed(b"ab\ncd");
        sim::run();
        match how {
            0 => c.sim_close_write(),
            1 => c.sim_reset(),
            _ => {
                c.sim_fail_peer_writes(io::ErrorKind::BrokenPipe);
                c.sim_feed(b"\n");
            }
        }
        sim::run();
        dev::take_log();
        drop(c);
        let h = heap_live();
        if i == 3 {
            at = h;
        }
        if i > 3 {
            check(h <= at, "memory grows with every session that has ended");
        }
    }
    cover(1);
}
fn h_r01_memory() {
    memory(choice(2))
}

// ------------------------------------------------------------------- R02 ----

static HELD: Global<bool> = Global::new(false);
static BUSY: Global<bool> = Global::new(false);
const R_HELD: &str = "a command is executed while another client holds a lock";
fn guarded(c: &[u8]) -> Option<Vec<u8>> {
    check(!HELD.with(|h| *h), R_HELD);
    check(!BUSY.with(|h| *h), "a command is executed while another client uses the device");
    Some(c.to_vec())
}
fn sessions(env: &Env) -> Vec<(usize, TcpStream)> {
    let kinds = [[0, 0], [0, 2], [2, 2]][choice(3)];
    if kinds[0] == 0 {
        env.raw(rawcfg());
    }
    if kinds[1] == 2 {
        env.tel(4);
    }
    kinds.iter().map(|k| (*k, connect(if *k == 0 { RAW_PORT } else { TEL_PORT }))).collect()
}
/// Two clients and another user of the device, in any order.
fn r02(depth: usize, sched: u32) {
    let env = Env::new();
    let cs = sessions(&env);
    dev::set_respond(guarded);
    let mut h: LockHandle<Dev> = env.other();
    let mut busy: Option<MutexGuard<Dev>> = None;
    let mut n = 0u8;
    let mut sent: [Vec<u8>; 2] = [Vec::new(), Vec::new()];
    // commands the server may not have seen yet
    let mut pending = false;
    for step in 0..depth {
        let held = HELD.with(|x| *x);
        let opts = if held || busy.is_some() { 3 } else { 5 };
        match choice(opts) {
            i @ (0 | 1) => {
                cs[i].1.sim_feed(&[b'a' + n, b'\n']);
                sent[i].push(b'a' + n);
                n += 1;
                pending = true;
                if held {
                    cover(1)
                }
            }
            2 if held => {
                HELD.with(|x| *x = false);
                check(h.try_release().is_ok(), "harness: release");
            }
            2 if busy.is_some() => {
                BUSY.with(|x| *x = false);
                busy = None;
            }
            2 => {
                let g = env.dev.try_lock();
                if g.is_some() {
                    BUSY.with(|x| *x = true);
                    cover(2);
                }
                busy = unsafe { std::mem::transmute(g) };
            }
            k => {
                let ok = if k == 3 { h.try_acquire_exclusive() } else { h.try_acquire_shared(b"x") }.is_ok();
                if ok {
                    HELD.with(|x| *x = true);
                }
            }
        }
        if choice(2) == 1 {
            if step + 1 == depth {
                sim::set_sched_budget(sched);
            }
            sim::run();
            let free = !HELD.with(|x| *x) && busy.is_none();
            if free && pending {
                check(dev::execs().len() == n as usize, "a command is not executed although the device is free");
                pending = false;
            }
        }
    }
    sim::set_sched_budget(sched);
    BUSY.with(|x| *x = false);
    drop(busy);
    if HELD.with(|x| *x) {
        if choice(2) == 1 {
            sim::run();
        }
        HELD.with(|x| *x = false);
        if choice(2) == 1 {
            let _ = h.try_release();
        } else {
            drop(std::mem::replace(&mut h, env.other()));
        }
    }
    sim::run();
    let ex = dev::execs();
    check(ex.len() == n as usize, "a command is lost or executed twice");
    // each client's commands in order
    for i in 0..2 {
        let mine: Vec<u8> = ex.iter().filter(|c| c.len() == 1 && sent[i].contains(&c[0])).map(|c| c[0]).collect();
        check_eq(&mine, &sent[i], "the commands of a client are not executed in order");
        let mut want = greeting(cs[i].0);
        for b in &sent[i] {
            want.extend_from_slice(&answer(cs[i].0, &[*b]));
        }
        check_eq(&cs[i].1.sim_take(), &want, "a client does not get exactly the responses to its own commands");
    }
    cover(3);
    obs(n as u64);
}
fn h_r02_q() {
    r02(5, 1)
}
fn h_r02_t() {
    r02(6, 1)
}
/// Another user takes a lock at any point of the locking code itself.
static OTHER: Global<Option<LockHandle<Dev>>> = Global::new(None);
fn other_step(_: u32) {
    let held = HELD.with(|h| *h);
    OTHER.with(|o| {
        let h = o.as_mut().unwrap();
        if held {
            HELD.with(|x| *x = false);
            let _ = h.try_release();
        } else if choice(2) == 0 {
            // taking a lock counts from the time it is granted
            let _ = h.try_acquire_exclusive();
        } else {
            let _ = h.try_acquire_shared(b"x");
        }
    });
}
fn h_r02_preempt() {
    let env = Env::new();
    let cs = sessions(&env);
    OTHER.with(|o| *o = Some(env.other()));
    set_preempt(Some(other_step), 2);
    cs[0].1.sim_feed(b"a\n");
    sim::run();
    cs[1].1.sim_feed(b"b\n");
    sim::run();
    set_preempt(None, 0);
    // whoever holds a lock now: nothing more is executed until it is gone
    let n = dev::execs().len();
    let i = OTHER.with(|o| o.as_ref().unwrap().lock_info());
    if i.0 || i.1 > 0 {
        cover(1);
        sim::run();
        check(dev::execs().len() == n, R_HELD);
        OTHER.with(|o| o.as_mut().unwrap().force_release());
        sim::run();
    }
    check(dev::execs().len() == 2, "a command is lost or executed twice");
    for (j, (k, c)) in cs.iter().enumerate() {
        let mut want = greeting(*k);
        want.extend_from_slice(&answer(*k, &[b'a' + j as u8]));
        check_eq(&c.sim_take(), &want, "a client does not get exactly the responses to its own commands");
    }
}
/// A client that does not read its responses keeps nobody else from working.
fn h_r02_slow() {
    let env = Env::new();
    let cs = sessions(&env);
    let (a, b) = if choice(2) == 0 { (0, 1) } else { (1, 0) };
    cs[a].1.sim_take();
    cs[b].1.sim_take();
    dev::set_respond(guarded);
    cs[a].1.sim_limit_peer_writes(choice(2), 1 + choice(2));
    cs[a].1.sim_feed(b"aaaa\nxxxx\n");
    sim::run();
    cs[b].1.sim_feed(b"bb\n");
    sim::run();
    check_eq(&cs[b].1.sim_take(), &answer(cs[b].0, b"bb"), "a client that does not read keeps another one from working");
    let mut h = env.other();
    check(h.try_lock().is_ok(), "a client that does not read keeps the device");
    check(h.try_acquire_exclusive().is_ok(), "a client that does not read keeps a lock");
    HELD.with(|x| *x = true);
    cs[a].1.sim_limit_peer_writes(usize::MAX, usize::MAX);
    let mut got = drain(&cs[a].1);
    HELD.with(|x| *x = false);
    h.force_release();
    got.extend_from_slice(&drain(&cs[a].1));
    let mut want = answer(cs[a].0, b"aaaa");
    want.extend_from_slice(&answer(cs[a].0, b"xxxx"));
    check_eq(&got, &want, "a client does not get exactly the responses to its own commands");
    cover(1);
}

// ------------------------------------------------------------------- N01 ----

const IAC: u8 = 255;
const SB: u8 = 250;
const SE: u8 = 240;
const WILL: u8 = 251;
const WONT: u8 = 252;
const DO: u8 = 253;
const DONT: u8 = 254;

/// The telnet session as it should be.
struct Tel {
    st: u8,
    neg: u8,
    line: Vec<u8>,
    on: [bool; 3],
    /// Options the client was told the server will use, at least once.
    asked: [bool; 3],
    out: Vec<u8>,
    exec: Vec<Vec<u8>>,
    resp: fn(usize, &[u8]) -> Option<Vec<u8>>,
}
fn esc(out: &mut Vec<u8>, b: &[u8]) {
    for &x in b {
        if x == IAC {
            out.push(IAC);
        }
        out.push(x);
    }
}
impl Tel {
    fn new(resp: fn(usize, &[u8]) -> Option<Vec<u8>>) -> Tel {
        let mut t = Tel {
            st: 0,
            neg: 0,
            line: Vec::new(),
            on: [false; 3],
            asked: [false; 3],
            out: Vec::new(),
            exec: Vec::new(),
            resp,
        };
        t.prompt();
        t
    }
    fn prompt(&mut self) {
        self.out.extend_from_slice(b"SCPI> ");
        if !self.on[2] {
            self.out.extend_from_slice(&[IAC, 249]);
        }
    }
    fn data(&mut self, b: u8) {
        if self.on[1] {
            esc(&mut self.out, &[b]);
        }
        if b != b'\n' {
            self.line.push(b);
            return;
        }
        let mut l = std::mem::take(&mut self.line);
        if let Some(&x) = l.last() {
            if x == b'\r' {
                l.pop();
            }
        }
        let r = (self.resp)(self.exec.len(), &l);
        self.exec.push(l);
        if let Some(r) = r {
            esc(&mut self.out, &r);
            self.out.extend_from_slice(b"\r\n");
        }
        self.prompt();
    }
    fn negotiate(&mut self, c: u8, o: u8) {
        let k = if o == 0 {
            Some(0)
        } else if o == 1 {
            Some(1)
        } else if o == 3 {
            Some(2)
        } else {
            None
        };
        match (c, k) {
            (DO, Some(k)) => {
                if !self.on[k] {
                    self.out.extend_from_slice(&[IAC, WILL, o]);
                }
                self.on[k] = true;
                self.asked[k] = true;
            }
            (DO, None) => self.out.extend_from_slice(&[IAC, WONT, o]),
            (DONT, Some(k)) => {
                if self.on[k] {
                    self.out.extend_from_slice(&[IAC, WONT, o]);
                }
                self.on[k] = false;
            }
            (WILL, _) => self.out.extend_from_slice(&[IAC, DONT, o]),
            // whether a client that stops an option nobody agreed on gets another
            // confirmation is left open
            (WONT, Some(k)) if self.asked[k] => prune(),
            _ => {}
        }
    }
    fn byte(&mut self, b: u8) {
        match self.st {
            0 => {
                if b == IAC {
                    self.st = 1
                } else {
                    self.data(b)
                }
            }
            1 => {
                self.st = 0;
                if b == IAC {
                    self.data(IAC)
                } else if b == SB {
                    self.st = 3
                } else if b >= WILL {
                    self.neg = concrete(b as u64) as u8;
                    self.st = 2
                } else if b == 247 {
                    self.line.pop();
                } else if b == 248 {
                    self.line.clear();
                }
            }
            2 => {
                self.st = 0;
                self.negotiate(self.neg, b)
            }
            3 => {
                if b == IAC {
                    self.st = 4
                }
            }
            _ => self.st = if b == SE { 0 } else { 3 },
        }
    }
}
const N_CMD: &str = "the commands executed are not exactly the lines that were sent";
const N_OUT: &str = "the client does not receive exactly prompts, echo, answers to negotiations and responses";
fn compare(t: &Tel, c: &TcpStream, got0: Vec<u8>) {
    let mut got = got0;
    got.extend_from_slice(&drain(c));
    cmds_eq(&t.exec, N_CMD);
    check_eq(&got, &t.out, N_OUT);
    obs(t.exec.len() as u64);
    obs_bytes(&got);
}
fn r_echo(_: usize, c: &[u8]) -> Option<Vec<u8>> {
    Some(c.to_vec())
}
fn r_prep(i: usize, _: &[u8]) -> Option<Vec<u8>> {
    RESP.with(|r| if i < r.len() { r[i].clone() } else { None })
}
/// Any bytes in any chunking.
fn n01_any(n: usize) {
    let env = Env::new();
    env.tel(2);
    let c = connect(TEL_PORT);
    let b = any_vec(n);
    let mut t = Tel::new(r_echo);
    feed_cut(&c, &b, choice(1 << (n - 1)));
    for &x in &b {
        t.byte(x);
    }
    if t.exec.len() > 0 {
        cover(1)
    }
    // what is pending becomes visible
    if t.st == 0 {
        cover(2);
        c.sim_feed(b"\n");
        t.byte(b'\n');
        sim::run();
    }
    compare(&t, &c, Vec::new());
}
fn h_n01_any() {
    n01_any(6)
}
fn h_n01_any_t() {
    n01_any(7)
}
/// One telnet element.
fn item(b: &mut Vec<u8>) {
    match choice(8) {
        0 => {
            let x = any_u8();
            assume(x != IAC && x != b'\n');
            b.push(x)
        }
        1 => b.extend_from_slice(&[IAC, IAC]),
        2 => {
            let x = any_u8();
            assume(x < SB);
            b.extend_from_slice(&[IAC, x]);
        }
        3 => {
            let x = any_u8();
            b.extend_from_slice(&[IAC, [WILL, WONT, DO, DONT][choice(4)], x]);
        }
        4 => {
            let x = any_vec(2);
            b.extend_from_slice(&[IAC, SB, x[0], x[1], IAC, SE]);
        }
        5 => b.extend_from_slice(b"\r\n"),
        6 => b.push(b'\n'),
        _ => b.extend_from_slice(b"XY"),
    }
}
/// Sequences of telnet elements, each option on or off, cut anywhere.
fn n01_items(n: usize, some: bool) {
    let env = Env::new();
    env.tel(2);
    let c = connect(TEL_PORT);
    let mut t = Tel::new(r_echo);
    let pre: &[&[u8]] = &[b"", &[IAC, DO, 1], &[IAC, DO, 3], &[IAC, DO, 1, IAC, DO, 3, IAC, DO, 0]];
    let p = pre[choice(4)];
    c.sim_feed(p);
    sim::run();
    for &x in p {
        t.byte(x);
    }
    let mut b = Vec::new();
    for _ in 0..n {
        item(&mut b);
    }
    b.push(b'\n');
    if some {
        feed_some(&c, &b);
    } else {
        feed_cut(&c, &b, [0, usize::MAX][choice(2)]);
    }
    for &x in &b {
        t.byte(x);
    }
    cover(if t.on[1] { 1 } else { 2 });
    compare(&t, &c, Vec::new());
}
fn h_n01_items() {
    n01_items(2, true)
}
fn h_n01_items_t() {
    n01_items(3, true)
}
/// Editing: any sequence of bytes and edit commands.
fn n01_edit(n: usize) {
    let env = Env::new();
    env.tel(2);
    let c = connect(TEL_PORT);
    let mut t = Tel::new(r_echo);
    let mut b = Vec::new();
    for _ in 0..n {
        match choice(5) {
            0 => b.extend_from_slice(&[IAC, 247]),
            1 => b.extend_from_slice(&[IAC, 248]),
            2 => b.extend_from_slice(&[IAC, IAC]),
            3 => b.push(b'\r'),
            _ => {
                let x = any_u8();
                assume(x != IAC);
                b.push(x)
            }
        }
    }
    b.push(b'\n');
    feed_cut(&c, &b, [0, usize::MAX][choice(2)]);
    for &x in &b {
        t.byte(x);
    }
    cover(1 + (t.exec.len() > 1) as u32);
    compare(&t, &c, Vec::new());
}
fn h_n01_edit() {
    n01_edit(6)
}
fn h_n01_edit_t() {
    n01_edit(7)
}
/// Responses of every kind, pipelined commands, writes accepted in pieces.
fn n01_resp(n: usize) {
    let env = Env::new();
    let mw = [usize::MAX, 1, 3][choice(3)];
    sim::set_max_write(mw);
    env.tel(2);
    let c = connect(TEL_PORT);
    if choice(2) == 1 {
        c.sim_limit_peer_writes(1, mw);
    }
    dev::set_respond(prepared);
    let mut t = Tel::new(r_prep);
    let mut b = Vec::new();
    if choice(2) == 1 {
        b.extend_from_slice(&[IAC, DO, 3, IAC, DO, 1]);
    }
    for i in 0..n {
        let r = any_resp(2);
        cover(1 + r.is_some() as u32);
        RESP.with(|v| v.push(r));
        b.push(b'a' + i as u8);
        b.extend_from_slice(if i == 1 { b"\r\n" } else { b"\n" });
    }
    let whole = choice(2) == 0;
    let mut got = Vec::new();
    if whole {
        c.sim_feed(&b);
    } else {
        for i in 0..b.len() {
            c.sim_feed(&b[i..i + 1]);
            if i % 2 == 0 {
                sim::run();
                got.extend_from_slice(&c.sim_take());
            }
        }
    }
    for &x in &b {
        t.byte(x);
    }
    compare(&t, &c, got);
}
fn h_n01_resp() {
    n01_resp(3)
}
fn h_n01_resp_t() {
    n01_resp(4)
}
/// Lines longer than the session's buffers.
fn h_n01_long() {
    let env = Env::new();
    env.tel(2);
    let c = connect(TEL_PORT);
    let mut t = Tel::new(r_echo);
    let n = [0, 1, 126, 127, 128, 129, 255, 256, 257, 300][choice(10)];
    let mut b: Vec<u8> = (0..n).map(|i| b'A' + (i % 26) as u8).collect();
    if n > 0 {
        let at = [0, n / 2, n - 1][choice(3)];
        b[at] = any_u8();
    }
    match choice(4) {
        0 => b.extend_from_slice(b"\r\n"),
        1 => b.extend_from_slice(&[IAC, IAC, b'\n']),
        2 => b.extend_from_slice(&[IAC, 247, b'\n']),
        _ => b.extend_from_slice(&[IAC, DO, 7, b'\n']),
    }
    b.extend_from_slice(b"z\n");
    feed_cut(&c, &b, [0, usize::MAX][choice(2)]);
    for &x in &b {
        t.byte(x);
    }
    cover(1);
    compare(&t, &c, Vec::new());
}
/// Negotiations in any order, and what they mean for the next line.
fn n01_neg(n: usize) {
    let env = Env::new();
    env.tel(2);
    let c = connect(TEL_PORT);
    let mut t = Tel::new(r_echo);
    let mut b = Vec::new();
    for _ in 0..n {
        let o = any_u8();
        b.extend_from_slice(&[IAC, [DO, DONT, WILL, WONT][choice(4)], o]);
    }
    b.extend_from_slice(b"q\n");
    feed_cut(&c, &b, [0, usize::MAX][choice(2)]);
    for &x in &b {
        t.byte(x);
    }
    for k in 0..3 {
        if t.on[k] {
            cover(1 + k as u32)
        }
    }
    compare(&t, &c, Vec::new());
}
fn h_n01_neg() {
    n01_neg(3)
}
fn h_n01_neg_t() {
    n01_neg(4)
}

// ------------------------------------------------------------------- N02 ----

fn h_n02_lost() {
    lost(2)
}
fn h_n02_half() {
    half(2)
}
fn h_n02_limit() {
    limit(2)
}
fn h_n02_accept() {
    accept(2)
}
fn h_n02_memory() {
    memory(2)
}
/// Any bytes, the stream ending after them: the session ends, nothing crashes, and
/// the next client starts afresh.
fn n02_bytes(n: usize) {
    let env = Env::new();
    let base = sim::tasks_alive();
    env.tel(1);
    let c = connect(TEL_PORT);
    dev::set_respond([no_response, empty_response][choice(2)]);
    let b = any_vec(n);
    feed_some(&c, &b);
    match choice(3) {
        0 => c.sim_close_write(),
        1 => c.sim_reset(),
        _ => {
            c.sim_fail_peer_writes(io::ErrorKind::ConnectionReset);
            c.sim_feed(b"\n");
            c.sim_close_write();
        }
    }
    sim::run();
    cover(1);
    check(sim::tasks_alive() == base + 1, "a session goes on although its client is gone");
    check(c.sim_peer_closed(), "a connection is kept after its client has gone");
    let d = connect(TEL_PORT);
    serves(&d, 2, GONE);
}
fn h_n02_bytes() {
    n02_bytes(6)
}
fn h_n02_bytes_t() {
    n02_bytes(7)
}
/// Writing fails at any point of the session.
fn h_n02_werr() {
    let env = Env::new();
    let base = sim::tasks_alive();
    env.tel(1);
    let c = sim::connect(TEL_PORT).unwrap();
    let b: &[u8] = &[b'a', b'\n', IAC, DO, 1, b'b', IAC, WILL, 9, b'\r', b'\n', IAC, DO, 3, b'\n'];
    let n = choice(b.len() + 2);
    let kind = [io::ErrorKind::BrokenPipe, io::ErrorKind::ConnectionReset, io::ErrorKind::Other][choice(3)];
    if n > 0 {
        sim::run();
        c.sim_feed(&b[..n - 1]);
        sim::run();
    }
    c.sim_fail_peer_writes(kind);
    c.sim_feed(if n > 0 { &b[n - 1..] } else { b });
    sim::run();
    // there is always something more to write, unless everything had been sent
    if n < b.len() + 1 {
        cover(1);
        check(sim::tasks_alive() == base + 1, "a session goes on although it cannot write");
        check(c.sim_peer_closed(), "a connection is kept after its client has gone");
    }
    c.sim_close();
    let d = connect(TEL_PORT);
    serves(&d, 2, GONE);
}

// --------------------------------------- configuration, length, repetition ----

static CFG: Global<Option<(Arc<lxi_socket::server::Server>, Arc<lxi_telnet::server::Server>)>> = Global::new(None);
/// Serve one client of a stream that somebody else accepted.
async fn serve_one(port: u16, tel: bool, l: Arc<SpinMutex<SharedLock>>, d: Arc<Mutex<Dev>>) {
    let lis = async_std::net::TcpListener::bind(("127.0.0.1", port)).await.unwrap();
    let (s, peer) = lis.accept().await.unwrap();
    let (a, b) = CFG.with(|c| c.clone().unwrap());
    let r = if tel {
        b.process_client(s, l, d, peer).await
    } else {
        use futures::AsyncReadExt;
        let (rd, wr) = s.split();
        a.process_client(rd, wr, l, d, peer).await
    };
    if r.is_err() {
        fail("serving a client fails although the client did nothing wrong")
    }
}
/// However a server is configured, it does what it is configured to do.
fn h_r01_config() {
    let env = Env::new();
    let (a, b) = (any_control(), any_control());
    let d = RawConfig::default;
    // (configuration, read terminator, write terminator, limit if set)
    let (cfg, rt, wt, lim) = match choice(8) {
        0 => (d(), b'\n', b'\n', None),
        1 => (RawConfig::new(4, a), a, a, None),
        2 => (RawConfig::new(4, a).read_termination(b), b, a, None),
        3 => (RawConfig::new(4, a).write_termination(b).backpressure(1), a, b, Some(1)),
        4 => (d().backpressure(1).read_termination(a).write_termination(b).read_buffer(3), a, b, Some(1)),
        5 => (d().write_termination(b).backpressure(2).read_buffer(3), b'\n', b, Some(2)),
        6 => (d().read_buffer(3).read_termination(a).backpressure(1), a, b'\n', Some(1)),
        _ => (RawConfig::new(4, a).read_buffer(2).backpressure(2), a, a, Some(2)),
    };
    let how = choice(3);
    match how {
        0 => env.raw(cfg),
        1 => env.unix(cfg),
        _ => {
            CFG.with(|c| *c = Some((cfg.build(), TelConfig::default().build())));
            let (l, d) = (env.lock.clone(), env.dev.clone());
            sim::spawn_any(serve_one(RAW_PORT, false, l, d));
            sim::run();
        }
    }
    let port = if how == 1 { UNIX_PORT } else { RAW_PORT };
    let c = connect(port);
    let x = any_vec(5);
    feed_cut(&c, &x, [0, usize::MAX][choice(2)]);
    let (mut want, mut out, mut cur) = (Vec::new(), Vec::new(), Vec::new());
    for &y in &x {
        if y == rt {
            out.extend_from_slice(&cur);
            out.push(wt);
            want.push(std::mem::take(&mut cur));
        } else {
            cur.push(y);
        }
    }
    cover(1 + (want.len() > 0) as u32);
    cmds_eq(&want, R_CMD);
    check_eq(&c.sim_take(), &out, R_OUT);
    if how < 2 {
        if let Some(l) = lim {
            let more: Vec<TcpStream> = (0..2).map(|_| sim::connect(port).unwrap()).collect();
            for m in &more {
                m.sim_feed(&[b'x', rt]);
            }
            sim::run();
            let n = more.iter().filter(|m| m.sim_avail() > 0).count();
            check(n + 1 == l, "the number of clients served at once is not the configured one");
            cover(3);
        }
    }
    c.sim_close();
    sim::run();
    check(c.sim_peer_gone(), "a connection is kept after its client has gone");
}
fn h_n01_config() {
    let env = Env::new();
    let d = TelConfig::default;
    let (cfg, lim) = match choice(5) {
        0 => (d(), None),
        1 => (TelConfig::new(choice(3)), None),
        2 => (TelConfig::new(4).backpressure(1), Some(1)),
        3 => (d().read_buffer(4).backpressure(2), Some(2)),
        _ => (d().backpressure(1).read_buffer(1), Some(1)),
    };
    let own = choice(2) == 1;
    let (l, dv) = (env.lock.clone(), env.dev.clone());
    if own {
        CFG.with(|c| *c = Some((RawConfig::default().build(), cfg.build())));
        sim::spawn_any(serve_one(TEL_PORT, true, l, dv));
    } else {
        sim::spawn_any(cfg.build().accept(("127.0.0.1", TEL_PORT), l, dv));
    }
    sim::run();
    let c = connect(TEL_PORT);
    let mut t = Tel::new(r_echo);
    let mut b = any_vec(3);
    b.extend_from_slice(b"q\r\n");
    feed_cut(&c, &b, [0, usize::MAX][choice(2)]);
    for &x in &b {
        t.byte(x);
    }
    cover(1);
    compare(&t, &c, Vec::new());
    if !own {
        if let Some(l) = lim {
            let more: Vec<TcpStream> = (0..2).map(|_| sim::connect(TEL_PORT).unwrap()).collect();
            sim::run();
            let n = more.iter().filter(|m| m.sim_avail() > 0).count();
            check(n + 1 == l, "the number of clients served at once is not the configured one");
            cover(2);
        }
    }
    c.sim_close();
    sim::run();
    check(c.sim_peer_gone(), "a connection is kept after its client has gone");
}
/// Many commands on one connection, also while the client does not read, and
/// commands and responses longer than anything buffered.
fn many(k: usize) {
    let env = Env::new();
    let port = start_kind(&env, k, 2);
    let c = connect(port);
    let mut t = Tel::new(r_echo);
    let n = 1100;
    let at = [0, 127, 255, 256, 1024, n - 1][choice(6)];
    let x = any_u8();
    assume(x != b'\n' && x != b'\r' && x != 255 && x != 8 && x != 127);
    let how = choice(3);
    if how == 2 {
        // nothing is read until everything was sent
        c.sim_limit_peer_writes(3, 64);
    }
    let mut want = Vec::new();
    let mut b = Vec::new();
    for i in 0..n {
        let cmd = vec![if i == at { x } else { b'a' + (i % 26) as u8 }; 1 + i % 3];
        let mut line = cmd.clone();
        line.push(b'\n');
        if how == 0 {
            c.sim_feed(&line);
            sim::run();
        }
        b.extend_from_slice(&line);
        want.push(cmd);
    }
    if how > 0 {
        c.sim_feed(&b);
    }
    cover(1);
    if k == 2 {
        for &y in &b {
            t.byte(y);
        }
        compare(&t, &c, Vec::new());
    } else {
        let got = drain(&c);
        cmds_eq(&want, R_CMD);
        check_eq(&got, &b, R_OUT);
    }
    check(!c.sim_peer_closed(), "a connection is closed while its client uses it");
}
fn h_r01_many() {
    many(choice(2))
}
fn h_n01_many() {
    many(2)
}
/// Long commands and long responses.
fn big(k: usize, commands: &[usize], responses: &[usize]) {
    let env = Env::new();
    let port = if k == 2 {
        env.tel(2);
        TEL_PORT
    } else {
        env.raw(RawConfig::default().read_buffer([4096, 8][choice(2)]));
        RAW_PORT
    };
    let c = connect(port);
    let mut t = Tel::new(r_prep);
    let (cl, rl) = match choice(2) {
        0 => (commands[choice(commands.len())], 3),
        _ => (3, responses[choice(responses.len())]),
    };
    let x = any_u8();
    assume(x != b'\n' && x != b'\r' && x != 255 && x != 8 && x != 127);
    let mut cmd: Vec<u8> = (0..cl).map(|i| b'A' + (i % 26) as u8).collect();
    cmd[[0, cl / 2, cl - 1][choice(3)]] = x;
    let mut resp: Vec<u8> = (0..rl).map(|i| b'a' + (i % 26) as u8).collect();
    let y = any_u8();
    resp[[0, rl / 2, rl - 1][choice(3)]] = y;
    RESP.with(|v| {
        v.push(Some(resp.clone()));
        v.push(Some(b"second".to_vec()));
    });
    dev::set_respond(prepared);
    let slow = choice(2) == 1;
    if slow {
        c.sim_limit_peer_writes(5, 1000);
    }
    let mut b = cmd.clone();
    b.extend_from_slice(b"\nzz\n");
    match choice(2) {
        0 => c.sim_feed(&b),
        _ => {
            for ch in b.chunks(1000) {
                c.sim_feed(ch);
                sim::run();
            }
        }
    }
    cover(1);
    if k == 2 {
        for &z in &b {
            t.byte(z);
        }
        compare(&t, &c, Vec::new());
    } else {
        let got = drain(&c);
        cmds_eq(&[cmd, b"zz".to_vec()], R_CMD);
        resp.extend_from_slice(b"\nsecond\n");
        check_eq(&got, &resp, R_OUT);
    }
}
fn h_r01_big() {
    big(0, &[255, 256, 4095, 4096, 4097, 8192, 65536, 70000, 600_000], &[255, 256, 1024, 8192, 65535, 65536, 70000])
}
fn h_n01_big() {
    big(2, &[1023, 1024, 1025, 4096, 8192, 16384], &[127, 128, 255, 256, 1023, 1024, 4096, 65536])
}

entries!(
    h_r01_split, h_r01_split_t, h_r01_resp, h_r01_resp_t, h_r01_long, h_r01_lost, h_r01_half, h_r01_limit, h_r01_accept, h_r01_memory,
    h_r01_config, h_r01_many, h_r01_big, h_n01_config, h_n01_many, h_n01_big,
    h_r02_q, h_r02_t, h_r02_preempt, h_r02_slow,
    h_n01_any, h_n01_any_t, h_n01_items, h_n01_items_t, h_n01_edit, h_n01_edit_t, h_n01_resp, h_n01_resp_t, h_n01_long, h_n01_neg, h_n01_neg_t,
    h_n02_lost, h_n02_half, h_n02_limit, h_n02_accept, h_n02_memory, h_n02_bytes, h_n02_bytes_t, h_n02_werr,
);
