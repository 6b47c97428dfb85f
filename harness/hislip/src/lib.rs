//! The HiSLIP server (crate lxi-hislip): properties H01-H10. The server runs
//! unmodified on the simulated network; the harness is the client(s).
use async_std::net::TcpStream;
use async_std::sim::{self, LinkCtl};
use futures::future::FutureObj;
use futures::task::{Spawn, SpawnError};
use lxi_device::lock::{LockHandle, Mutex, MutexGuard, SharedLock, SpinMutex};
use lxi_device::status::Sender as StatusSender;
use lxi_device::trigger::Source;
use lxi_device::{Device, DeviceError};
use lxi_hislip::common::errors::{FatalErrorCode, NonFatalErrorCode};
use lxi_hislip::common::messages::MessageType;
use lxi_hislip::common::Protocol;
use lxi_hislip::server::{Server, ServerBuilder, ServerConfig};
use std::collections::HashMap;
use std::sync::Arc;
use symrt::dev::{self, Dev, Ev};
use symrt::*;

const PORT: u16 = 4880;
// message types
const INIT: u8 = 0;
const INIT_R: u8 = 1;
const FATAL: u8 = 2;
const ERROR: u8 = 3;
const LOCK: u8 = 4;
const LOCK_R: u8 = 5;
const DATA: u8 = 6;
const END: u8 = 7;
const CLR_DONE: u8 = 8;
const CLR_ACK: u8 = 9;
const RL: u8 = 10;
const RL_R: u8 = 11;
const TRIG: u8 = 12;
const MAX: u8 = 15;
const MAX_R: u8 = 16;
const AINIT: u8 = 17;
const AINIT_R: u8 = 18;
const ACLR: u8 = 19;
const SRQ: u8 = 20;
const STB: u8 = 21;
const STB_R: u8 = 22;
const ACLR_R: u8 = 23;
const INFO: u8 = 24;
const INFO_R: u8 = 25;
const DESCR: u8 = 26;

// ---------------------------------------------------------------- client ----

struct Sp;
impl Spawn for Sp {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        sim::spawn_any(f);
        Ok(())
    }
}
struct Env {
    dev: Arc<Mutex<Dev>>,
    lock: Arc<SpinMutex<SharedLock>>,
    srq: StatusSender,
}
fn cfg() -> ServerConfig {
    ServerConfig::default().vendor_id(0x1234).max_message_size(8).max_num_sessions(2)
}
fn start(c: ServerConfig) -> Env {
    start_with(c, |b| b)
}
fn start_with(c: ServerConfig, f: impl FnOnce(ServerBuilder<Dev>) -> ServerBuilder<Dev>) -> Env {
    let dev = Arc::new(Mutex::new(Dev));
    let lock = SharedLock::new();
    let b = ServerBuilder::new(c).device("hislip0".to_string(), dev.clone(), lock.clone());
    let server: Arc<Server<Dev>> = f(b).build();
    let srq = StatusSender::new();
    let s = srq.clone();
    sim::spawn_any(async move {
        let _ = server.accept(("127.0.0.1", PORT), s, Sp).await;
    });
    sim::run();
    Env { dev, lock, srq }
}
impl Env {
    /// Another client of the same device, at the level of the lock.
    fn other(&self) -> LockHandle<Dev> {
        LockHandle::new(self.lock.clone(), self.dev.clone())
    }
}

#[derive(Clone)]
struct Msg {
    ty: u8,
    cc: u8,
    p: u32,
    pl: Vec<u8>,
}
fn enc(ty: u8, cc: u8, p: u32, pl: &[u8]) -> Vec<u8> {
    enc_len(ty, cc, p, pl.len() as u64, pl)
}
fn enc_len(ty: u8, cc: u8, p: u32, len: u64, pl: &[u8]) -> Vec<u8> {
    let mut v = vec![b'H', b'S', ty, cc];
    v.extend_from_slice(&p.to_be_bytes());
    v.extend_from_slice(&len.to_be_bytes());
    v.extend_from_slice(pl);
    v
}
struct Conn {
    s: TcpStream,
}
impl Conn {
    fn open() -> Conn {
        let s = sim::connect(PORT).unwrap();
        Conn { s }
    }
    fn put(&self, b: &[u8]) {
        self.s.sim_feed(b)
    }
    fn tx(&self, ty: u8, cc: u8, p: u32, pl: &[u8]) {
        self.put(&enc(ty, cc, p, pl))
    }
    /// Everything the server sent; it must be whole, well-formed messages.
    fn msgs(&self) -> Vec<Msg> {
        let b = self.s.sim_take();
        let mut r = Vec::new();
        let mut i = 0;
        while i < b.len() {
            if b.len() - i < 16 {
                fail("the server sent an incomplete message header");
                return r;
            }
            check(b[i] == b'H' && b[i + 1] == b'S', "the server sent a message with a bad prologue");
            let mut p = [0u8; 4];
            p.copy_from_slice(&b[i + 4..i + 8]);
            let mut l = [0u8; 8];
            l.copy_from_slice(&b[i + 8..i + 16]);
            let n = concrete(u64::from_be_bytes(l)) as usize;
            if n > b.len() - i - 16 {
                fail("the server sent a message shorter than its length field says");
                return r;
            }
            r.push(Msg {
                ty: concrete(b[i + 2] as u64) as u8,
                cc: b[i + 3],
                p: u32::from_be_bytes(p),
                pl: b[i + 16..i + 16 + n].to_vec(),
            });
            i += 16 + n;
        }
        r
    }
    fn one(&self, what: &str) -> Option<Msg> {
        let mut m = self.msgs();
        if m.len() != 1 {
            fail(what);
            return None;
        }
        m.pop()
    }
    fn closed(&self) -> bool {
        self.s.sim_peer_closed()
    }
    fn expect(&self, ty: u8, what: &str) -> Msg {
        match self.one(what) {
            Some(m) => {
                check(m.ty == ty, what);
                m
            }
            None => Msg { ty: 0, cc: 0, p: 0, pl: Vec::new() },
        }
    }
}
/// One complete fatal error with this code, and the connection is closed.
fn expect_fatal(c: &Conn, code: u8, what: &str) {
    let m = c.expect(FATAL, what);
    check(m.cc == code, what);
    check(c.closed(), "the connection stays open after a fatal error");
}
fn init_sync(proto: u16) -> (Conn, u16) {
    let c = Conn::open();
    c.tx(INIT, 0, (proto as u32) << 16, b"");
    sim::run();
    let m = c.expect(INIT_R, "Initialize for the default device is not answered with InitializeResponse");
    (c, concrete((m.p & 0xffff) as u64) as u16)
}
fn init_async(id: u16) -> Conn {
    let c = Conn::open();
    c.tx(AINIT, 0, id as u32, b"");
    sim::run();
    c.expect(AINIT_R, "AsyncInitialize for a live session is not answered with AsyncInitializeResponse");
    c
}
struct Session {
    s: Conn,
    a: Conn,
    id: u16,
}
fn session() -> Session {
    session_v(0x0100)
}
fn session_v(proto: u16) -> Session {
    let (s, id) = init_sync(proto);
    let a = init_async(id);
    Session { s, a, id }
}
/// The device executed exactly these commands since the log was last taken.
fn expect_execs(want: &[Vec<u8>], what: &str) {
    let got = dev::execs();
    if got.len() != want.len() {
        fail(what);
        return;
    }
    for i in 0..want.len() {
        check_eq(&got[i], &want[i], what)
    }
    dev::take_log();
}
/// A session that is unharmed executes a command and answers.
fn probe_sync(s: &Conn, what: &str) {
    s.msgs();
    dev::take_log();
    dev::set_respond(|c| Some(c.to_vec()));
    s.tx(END, 0, 77, b"pr");
    sim::run();
    expect_execs(&[b"pr".to_vec()], what);
    let mut got = Vec::new();
    let ms = s.msgs();
    for (i, m) in ms.iter().enumerate() {
        check(m.ty == if i + 1 == ms.len() { END } else { DATA } && m.p == 77, what);
        got.extend(&m.pl);
    }
    check_eq(&got, b"pr", what);
}
fn probe_async(a: &Conn, what: &str) {
    a.msgs();
    a.tx(INFO, 0, 0, b"");
    sim::run();
    match a.one(what) {
        Some(m) => check(m.ty == INFO_R, what),
        None => {}
    }
}
fn no_response(_c: &[u8]) -> Option<Vec<u8>> {
    None
}

// ------------------------------------------------------------------ H01 ----

const PROC: &str = "the message after this one is not processed normally";
#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    Init,
    Sync,
    Async,
}
#[derive(Clone, Copy, PartialEq)]
enum Want {
    Nothing,
    NonFatal(u8),
    AnyNonFatal,
    Fatal(u8),
    AnyFatal,
    Reply(u8),
    /// Anything well-formed that leaves the session usable.
    Free,
}
/// What one complete message of type `ty` within the size limit leads to.
fn want(ctx: Ctx, v2: bool, ty: u8, n: usize) -> Want {
    match ty {
        128..=255 => return Want::NonFatal(3),
        39..=127 => return Want::NonFatal(1),
        FATAL | ERROR => return Want::Nothing,
        _ => {}
    }
    match ctx {
        Ctx::Init => match ty {
            INIT if n == 0 => Want::Reply(INIT_R),
            _ => Want::Fatal(3),
        },
        Ctx::Sync => match ty {
            DATA | END | TRIG => Want::Free,
            DESCR => Want::Free,
            28 | 31 | 34 | 36 | 37 if v2 => Want::Fatal(5),
            _ => Want::AnyNonFatal,
        },
        Ctx::Async => match ty {
            LOCK => Want::Reply(LOCK_R),
            RL => Want::Free,
            MAX if n == 8 => Want::Reply(MAX_R),
            MAX => Want::AnyFatal,
            ACLR => Want::Reply(ACLR_R),
            STB => Want::Reply(STB_R),
            INFO => Want::Reply(INFO_R),
            29 | 32 if v2 => Want::AnyFatal,
            _ => Want::AnyNonFatal,
        },
    }
}
fn check_want(c: &Conn, w: Want, ms: &[Msg]) -> bool {
    let mut open = true;
    match w {
        Want::Nothing => check(ms.is_empty(), "a message that needs no answer is answered"),
        Want::Free => {
            for m in ms {
                check(m.ty != FATAL, "an acceptable message is answered with a fatal error")
            }
        }
        _ => {
            if ms.len() != 1 {
                fail("a message is not answered with exactly one message");
                return false;
            }
            let m = &ms[0];
            match w {
                Want::NonFatal(code) => {
                    check(m.ty == ERROR, "a message that cannot be processed is not answered with a non-fatal error");
                    check(m.cc == code, "a non-fatal error carries the wrong code");
                }
                Want::AnyNonFatal => {
                    check(m.ty == ERROR, "a message that cannot be processed is not answered with a non-fatal error")
                }
                Want::Fatal(code) => {
                    check(m.ty == FATAL, "a message that ends the session is not answered with a fatal error");
                    check(m.cc == code, "a fatal error carries the wrong code");
                    open = false;
                }
                Want::AnyFatal => {
                    check(m.ty == FATAL || m.ty == ERROR, "an invalid message is not answered with an error");
                    open = m.ty != FATAL;
                }
                Want::Reply(t) => check(m.ty == t, "a request is answered with a message of the wrong type"),
                _ => {}
            }
        }
    }
    check(c.closed() != open, "the connection is closed after a message that is not fatal, or left open after a fatal error");
    open
}
/// A connection in the given state; the other one of the session is returned too.
fn in_ctx(ctx: Ctx, proto: u16) -> (Conn, Option<Conn>) {
    match ctx {
        Ctx::Init => (Conn::open(), None),
        Ctx::Sync => {
            let s = session_v(proto);
            (s.s, Some(s.a))
        }
        Ctx::Async => {
            let s = session_v(proto);
            (s.a, Some(s.s))
        }
    }
}
/// `n` messages with symbolic type, control code, parameter and payload and a
/// length within or beyond the limit, then a known one.
fn h01_msgs(ctx: Ctx, n: usize) {
    let _env = start(cfg());
    let v2 = ctx != Ctx::Init && choice(2) == 1;
    let (c, _o) = in_ctx(ctx, if v2 { 0x0200 } else { 0x0100 });
    dev::set_respond(no_response);
    let mut partial = false;
    for k in 0..n {
        let (ty, cc, p) = (any_u8(), any_u8(), any_u32());
        // payload: empty, short, exactly 8 (the limit), beyond
        let len = match choice(4) {
            0 => 0,
            1 => 1,
            2 => 8,
            _ => 9,
        };
        let pl = any_vec(len);
        if ctx == Ctx::Init {
            // symbolic sub-addresses and sessions are the subject of H02
            assume(len == 0 || len > 8 || ty != INIT);
            assume(ty != AINIT || p == 0xfff0);
        }
        if ctx == Ctx::Async {
            // waiting for locks and the device is the subject of H06, H07
            assume(ty != LOCK || len == 0);
        }
        let b = enc(ty, cc, p, &pl);
        // the bytes arrive in one or two segments
        let cut = if k == 0 { [b.len(), 1, 16, 17][choice(4)] } else { b.len() };
        if cut > b.len() {
            prune()
        }
        c.put(&b[..cut]);
        sim::run();
        if cut < b.len() {
            if len <= 8 || cut < 16 {
                check(c.s.sim_avail() == 0 && !c.closed(), "an incomplete message is acted upon");
            }
            c.put(&b[cut..]);
            sim::run();
        }
        let w = if len > 8 { Want::NonFatal(4) } else { want(ctx, v2, ty, len) };
        if w == Want::NonFatal(4) {
            cover(2)
        }
        let ms = c.msgs();
        let open = check_want(&c, w, &ms);
        obs(ms.len() as u64);
        if !open {
            cover(3);
            check(sim::tasks_alive() <= 1 + if _o.is_some() { 1 } else { 0 }, "a closed connection is still being served");
            return;
        }
        if w == Want::Reply(INIT_R) {
            return;
        }
        if ctx == Ctx::Sync && len <= 8 {
            partial = if ty == DATA { true } else if ty == END { false } else { partial };
        }
    }
    cover(1);
    match ctx {
        Ctx::Init => {
            c.tx(INIT, 0, 0x0100_0000, b"");
            sim::run();
            c.expect(INIT_R, PROC);
        }
        Ctx::Sync => {
            if partial {
                c.tx(END, 0, 1, b"");
                sim::run();
                dev::take_log();
            }
            probe_sync(&c, PROC)
        }
        Ctx::Async => probe_async(&c, PROC),
    }
}
/// Arbitrary bytes, cut off anywhere.
fn h01_bytes(ctx: Ctx, max: usize) {
    let env = start(cfg().max_message_size(2));
    let (c, o) = in_ctx(ctx, 0x0100);
    dev::take_log();
    dev::set_respond(no_response);
    let n = choice(max + 1);
    let b = any_vec(n);
    if n >= 2 && choice(2) == 1 {
        // a bad prologue
        assume(b[0] != b'H' || b[1] != b'S');
        c.put(&b);
        c.s.sim_close_write();
        sim::run();
        let ms = c.msgs();
        if n < 16 {
            check(ms.is_empty() || ms[0].ty == FATAL, "an incomplete message is answered");
        } else {
            cover(1);
            check(ms.len() == 1, "a bad prologue is not answered with exactly one message");
            check(ms[0].ty == FATAL && ms[0].cc == 1, "a bad prologue is not answered with the fatal error for it");
        }
    } else {
        if n >= 1 {
            assume(b[0] == b'H');
        }
        if n >= 2 {
            assume(b[1] == b'S');
        }
        if n > 2 {
            match ctx {
                Ctx::Init => assume(b[2] != INIT && b[2] != AINIT),
                Ctx::Sync => {}
                Ctx::Async => assume(b[2] != LOCK),
            }
        }
        if n > 16 {
            for i in 8..15 {
                assume(b[i] == 0);
            }
        }
        c.put(&b);
        c.s.sim_close_write();
        sim::run();
        let ms = c.msgs();
        if n < 16 {
            check(ms.is_empty(), "an incomplete message is answered");
            check(dev::log_len() == 0, "an incomplete message has an effect on the device");
        } else {
            let len = concrete(b[15] as u64) as usize;
            if len <= 2 && len > n - 16 {
                cover(2);
                check(ms.is_empty(), "an incomplete message is answered");
                check(dev::log_len() == 0, "an incomplete message has an effect on the device");
            }
        }
    }
    check(c.closed(), "a connection is kept although the client is gone");
    check(sim::tasks_alive() <= 1 + if o.is_some() { 1 } else { 0 }, "a connection is still served although the client is gone");
    obs(n as u64);
    drop(env)
}
fn h_h01_init() {
    h01_msgs(Ctx::Init, 1)
}
fn h_h01_sync() {
    h01_msgs(Ctx::Sync, 1)
}
fn h_h01_async() {
    h01_msgs(Ctx::Async, 1)
}
fn h_h01_init2() {
    h01_msgs(Ctx::Init, 2)
}
fn h_h01_sync2() {
    h01_msgs(Ctx::Sync, 2)
}
fn h_h01_async2() {
    h01_msgs(Ctx::Async, 2)
}
fn h_h01_init3() {
    h01_msgs(Ctx::Init, 3)
}
fn h_h01_async3() {
    h01_msgs(Ctx::Async, 3)
}
fn h_h01_cut() {
    let ctx = [Ctx::Init, Ctx::Sync, Ctx::Async][choice(3)];
    h01_bytes(ctx, 18)
}

/// Connections lost before the server takes them.
fn h_h01_accept() {
    let _env = start(cfg());
    for _ in 0..1 + choice(2) {
        match choice(3) {
            0 => {
                let c = sim::connect(PORT).unwrap();
                c.sim_reset();
            }
            1 => {
                sim::fail_accept(PORT, std::io::ErrorKind::ConnectionAborted);
            }
            _ => {
                sim::fail_accept(PORT, std::io::ErrorKind::Other);
            }
        }
        if choice(2) == 1 {
            sim::run();
        }
    }
    let c = Conn::open();
    sim::run();
    while sim::fire_timer() {
        sim::run();
    }
    c.tx(INIT, 0, 0x0100_0000, b"");
    sim::run();
    let m = c.expect(INIT_R, "the server does not accept connections any more after one was lost");
    let _a = init_async(concrete((m.p & 0xffff) as u64) as u16);
    probe_sync(&c, "a session after a lost connection does not work");
    cover(1);
}

// ------------------------------------------------------------------ H02 ----

/// One Initialize with symbolic parameters, then the asynchronous channel.
fn h_h02_init() {
    let dev_b = Arc::new(Mutex::new(Dev));
    let lock_b = SharedLock::new();
    let mut other_b: LockHandle<Dev> = LockHandle::new(lock_b.clone(), dev_b.clone());
    let _ = other_b.try_acquire(b"");
    let overlap = choice(2) == 1;
    let mut c = cfg();
    if !overlap {
        c = c.prefer_synchronized()
    }
    let vid = any_u16();
    c.vendor_id = vid;
    let _env = start_with(c, |b| b.device("b".to_string(), dev_b.clone(), lock_b.clone()));
    let c = Conn::open();
    let (proto, vendor) = (any_u16(), any_u16());
    let sub: Vec<u8> = match choice(7) {
        0 => b"".to_vec(),
        1 => b"hislip0".to_vec(),
        2 => b"HISLIP0".to_vec(),
        3 => b"hislip".to_vec(),
        4 => b"b\0".to_vec(),
        5 => vec![b'b', 0xff],
        _ => vec![concrete(any_u8() as u64) as u8],
    };
    let known = matches!(&sub[..], b"" | b"hislip0" | b"b");
    c.tx(INIT, any_u8(), ((proto as u32) << 16) | vendor as u32, &sub);
    sim::run();
    if !known {
        cover(1);
        expect_fatal(&c, 3, "Initialize for an unknown device is not refused with InvalidInitialization");
        check(sim::tasks_alive() == 1, "a refused connection is still being served");
        return;
    }
    let m = c.expect(INIT_R, "Initialize for a known device is not answered with InitializeResponse");
    check(!c.closed(), "the synchronous channel closes after initialisation");
    check((m.p >> 16) as u16 == if proto < 0x0200 { proto } else { 0x0200 }, "the agreed protocol version is not the smaller of both sides' versions");
    check((m.cc & 1 == 1) == overlap, "InitializeResponse does not carry the server's overlap preference");
    let id = concrete((m.p & 0xffff) as u64) as u16;
    // the asynchronous channel
    let a = Conn::open();
    let ask = match choice(4) {
        0 => id,
        1 => id.wrapping_add(1),
        2 => id.wrapping_add(2),
        _ => 0,
    };
    a.tx(AINIT, any_u8(), ((any_u16() as u32) << 16) | ask as u32, b"");
    sim::run();
    if ask != id {
        expect_fatal(&a, 3, "AsyncInitialize for an unknown session is not refused with InvalidInitialization");
    } else {
        cover(2);
        let m = a.expect(AINIT_R, "AsyncInitialize for a live session is not answered with AsyncInitializeResponse");
        check((m.p & 0xffff) as u16 == vid, "AsyncInitializeResponse does not carry the configured vendor id");
        check(!a.closed(), "the asynchronous channel closes after initialisation");
        a.tx(INFO, 0, 0, b"");
        sim::run();
        let m = a.expect(INFO_R, "an initialised session does not answer on its asynchronous channel");
        check((m.cc == 1) == (sub == b"b"), "the session is connected to another device than the one named");
        // nobody else may attach to the same session
        let a2 = Conn::open();
        a2.tx(AINIT, 0, id as u32, b"");
        sim::run();
        expect_fatal(&a2, 3, "a second AsyncInitialize for a session is not refused with InvalidInitialization");
        probe_async(&a, "a refused AsyncInitialize harms the session");
    }
    obs(id as u64);
}

/// An asynchronous channel for every possible id.
fn h_h02_ids() {
    let _env = start(cfg());
    let (_s, id) = init_sync(0x0100);
    let a = Conn::open();
    let ask = (0..4).fold(0, |a, _| a * 16 + choice(16)) as u16;
    a.tx(AINIT, 0, ask as u32, b"");
    sim::run();
    if ask == id {
        cover(2);
        a.expect(AINIT_R, "AsyncInitialize for a live session is not answered with AsyncInitializeResponse");
    } else {
        cover(1);
        expect_fatal(&a, 3, "AsyncInitialize for an unknown session is not refused with InvalidInitialization");
    }
}

// ------------------------------------------------------------- H02, H03 ----

struct Sess {
    id: u16,
    s: Option<Conn>,
    a: Option<Conn>,
    had_async: bool,
}
impl Sess {
    fn live(&self) -> bool {
        self.s.is_some() || self.a.is_some()
    }
}
/// Histories of connections, initialisations, and disconnections.
fn h03(depth: usize, max: usize) {
    let env = start(cfg().max_num_sessions(max));
    let probe = env.other();
    let mut ss: Vec<Sess> = Vec::new();
    let mut holder: Option<usize> = None;
    for _ in 0..depth {
        match choice(5) {
            0 => {
                let c = Conn::open();
                c.tx(INIT, 0, 0x0100_0000, b"");
                sim::run();
                let live = ss.iter().filter(|s| s.live()).count();
                if live >= max {
                    cover(1);
                    expect_fatal(&c, 4, "a session beyond the limit is not refused with MaximumClientsExceeded");
                } else {
                    let m = c.expect(INIT_R, "a new session is refused although the limit is not reached");
                    let id = concrete((m.p & 0xffff) as u64) as u16;
                    for s in &ss {
                        check(!(s.live() && s.id == id), "two live sessions have the same id");
                    }
                    ss.push(Sess { id, s: Some(c), a: None, had_async: false });
                }
            }
            1 => {
                let k = choice(ss.len() + 1);
                let c = Conn::open();
                let id = if k < ss.len() { ss[k].id } else { 0x4242 };
                c.tx(AINIT, 0, id as u32, b"");
                sim::run();
                let ok = k < ss.len() && ss[k].s.is_some() && !ss[k].had_async;
                // a dead session's id may have been given to a new one
                let k = if !ok { ss.iter().position(|s| s.id == id && s.s.is_some() && !s.had_async) } else { Some(k) };
                match k {
                    Some(k) => {
                        c.expect(AINIT_R, "AsyncInitialize for a live session is refused");
                        ss[k].a = Some(c);
                        ss[k].had_async = true;
                    }
                    None => {
                        cover(2);
                        expect_fatal(&c, 3, "AsyncInitialize is accepted twice, or for a session that does not exist (any more)");
                    }
                }
            }
            2 => {
                // disconnect one channel
                let k = choice(ss.len().max(1));
                if k >= ss.len() {
                    prune()
                }
                let sync = choice(2) == 0;
                let c = if sync { ss[k].s.take() } else { ss[k].a.take() };
                match c {
                    Some(c) => {
                        if choice(2) == 0 {
                            c.s.sim_close_write();
                        } else {
                            c.s.sim_close();
                        }
                        sim::run();
                        check(c.closed(), "the server keeps a connection whose client is gone");
                    }
                    None => prune(),
                }
                if !ss[k].live() && holder == Some(k) {
                    cover(3);
                    holder = None;
                    check(!probe.lock_info().0, "the lock of a session whose connections are gone is not released");
                }
            }
            3 => {
                // a session takes the exclusive lock
                let k = choice(ss.len().max(1));
                if k >= ss.len() || ss[k].a.is_none() || holder.is_some() {
                    prune()
                }
                let a = ss[k].a.as_ref().unwrap();
                a.tx(LOCK, 1, 0, b"");
                sim::run();
                let m = a.expect(LOCK_R, "a lock request is not answered");
                check(m.cc == 1, "a lock request is refused although nobody holds a lock");
                holder = Some(k);
            }
            _ => {
                // something else before initialisation
                let c = Conn::open();
                c.tx([DATA, STB, LOCK, TRIG][choice(4)], 1, 0, b"");
                sim::run();
                expect_fatal(&c, 3, "a message before initialisation is not refused with InvalidInitialization");
            }
        }
        check(probe.lock_info().0 == holder.is_some() || holder.map_or(false, |k| ss[k].s.is_none() || ss[k].a.is_none()), "another session's lock is lost or appears out of nothing");
    }
    for s in &ss {
        if let (Some(c), true) = (&s.s, s.a.is_some()) {
            if holder.is_none() {
                probe_sync(c, "a live session is disturbed by other connections")
            }
        }
    }
    obs(ss.len() as u64);
}
/// All ids given out once: the next round must not reuse a live one.
fn h_h03_wrap() {
    let _env = start(cfg().max_num_sessions(5));
    // three neighbouring ids stay in use
    let keep: Vec<(Conn, u16)> = (0..3).map(|_| init_sync(0x0100)).collect();
    let mut n = 0u32;
    loop {
        let (c, id) = init_sync(0x0100);
        check(keep.iter().all(|k| k.1 != id), "two live sessions have the same id");
        if id > 6 && id < 20 && n > 16 {
            // wrapped around
            break;
        }
        c.s.sim_close();
        sim::run();
        n += 1;
        if n > 70000 {
            break;
        }
    }
    check(keep.iter().all(|k| !k.0.closed()), "a live session is disturbed by other connections");
    obs(n as u64);
}
fn h_h03_q() {
    h03(6, 2)
}
fn h_h03_t() {
    h03(7, 2)
}

/// Sessions leave nothing behind, however they end and whatever they were doing.
fn h_h03_memory() {
    let env = start(cfg());
    let mut h = env.other();
    let how = choice(3);
    let what = choice(5);
    let mut at = 0;
    for i in 0..10 {
        let (s, id) = init_sync(0x0100);
        let a = if what > 0 { Some(init_async(id)) } else { None };
        if let Some(a) = &a {
            match what {
                1 => {
                    s.tx(END, 0, 2, b"x");
                    s.tx(DATA, 0, 4, b"abcd");
                }
                2 => a.tx(LOCK, 1, 0, b"key"),
                3 => {
                    // waits for a lock, commands queue behind it
                    check(h.try_acquire(b"").is_ok(), "harness: lock");
                    a.tx(LOCK, 1, 100000, b"");
                    s.tx(END, 0, 2, b"x");
                }
                _ => {
                    check(h.try_acquire(b"").is_ok(), "harness: lock");
                    s.tx(END, 0, 2, b"x");
                }
            }
            sim::run();
        }
        let end = |c: &Conn| match how {
            0 => c.s.sim_close_write(),
            1 => c.s.sim_reset(),
            _ => c.s.sim_close(),
        };
        if i % 2 == 0 {
            end(&s);
            if let Some(a) = &a {
                end(a)
            }
            sim::run();
        } else {
            if let Some(a) = &a {
                end(a);
                sim::run();
            }
            end(&s);
            sim::run();
        }
        h.force_release();
        sim::run();
        while sim::fire_timer() {
            sim::run();
        }
        dev::take_log();
        drop(s);
        drop(a);
        check(sim::tasks_alive() == 1, "a connection is still served although the client is gone");
        check(sim::tasks_alive() == 1, "a connection is still served although the client is gone");
        if i == 3 {
            at = heap_live();
        }
        if i > 3 {
            check(heap_live() <= at, "memory grows with every session that has ended");
        }
    }
    cover(1);
}

// ------------------------------------------------------------------ H04 ----

fn expect_log(want: &[Ev], what: &str) {
    let got = dev::take_log();
    if got.len() != want.len() {
        fail(what);
        return;
    }
    for i in 0..want.len() {
        match (&got[i], &want[i]) {
            (Ev::Exec(a), Ev::Exec(b)) => check_eq(a, b, what),
            (a, b) => check(a == b, what),
        }
    }
}
fn h04(n: usize) {
    let _env = start(cfg());
    let both = choice(2) == 1;
    let (s, id) = init_sync(0x0100);
    let _a = if both { Some(init_async(id)) } else { None };
    dev::set_respond(no_response);
    let mut buf: Vec<u8> = Vec::new();
    let mut want = Vec::new();
    let mut bytes: Vec<u8> = Vec::new();
    let together = choice(3);
    for _ in 0..n {
        match choice(4) {
            0 => {
                let d = any_vec(choice(3));
                bytes.extend(enc(DATA, any_u8(), any_u32(), &d));
                buf.extend(d);
            }
            1 => {
                let d = any_vec(choice(3));
                bytes.extend(enc(END, any_u8(), any_u32(), &d));
                buf.extend(d);
                cover(2);
                want.push(Ev::Exec(std::mem::take(&mut buf)));
            }
            2 => {
                bytes.extend(enc(TRIG, any_u8(), any_u32(), b""));
                want.push(Ev::Trigger(Source::Bus));
            }
            _ => {
                if !both {
                    prune()
                }
                // a message that is refused leaves the data alone
                let t = if choice(2) == 0 { 200 } else { STB };
                bytes.extend(enc(t, 0, 0, b"zz"));
            }
        }
        if !both {
            s.put(&bytes);
            sim::run();
            cover(1);
            check(dev::log_len() == 0, "a command is executed before both channels are established");
            expect_fatal(&s, 2, "data before both channels are established is not refused with AttemptUseWithoutBothChannels");
            return;
        }
        if together == 0 {
            s.put(&bytes);
            bytes.clear();
            sim::run();
        }
    }
    if together > 0 {
        // all at once, or cut at one place
        let cut = if together == 1 { bytes.len() } else { choice(bytes.len()) };
        s.put(&bytes[..cut]);
        sim::run();
        s.put(&bytes[cut..]);
        sim::run();
    }
    check(!s.closed(), "the session closes on valid messages");
    expect_log(&want, "the device does not execute exactly the complete messages that were sent");
    for m in s.msgs() {
        check(m.ty == ERROR, "a command without response is answered");
    }
    // the client goes away in the middle of a message: nothing more happens
    if !buf.is_empty() {
        s.s.sim_close();
        sim::run();
        check(dev::log_len() == 0, "an incomplete message is executed when the client goes away");
    }
    obs(want.len() as u64);
}
fn h_h04_q() {
    h04(3)
}
fn h_h04_t() {
    h04(4)
}
/// The short identification response.
fn h_h04_idn() {
    let on = choice(2) == 1;
    let mut c = cfg();
    if on {
        c = c.short_idn(b"me")
    }
    let _env = start(c);
    let ss = session();
    dev::set_respond(|c| Some(c.to_vec()));
    let n = 4 + choice(3);
    let d = any_vec(n);
    let cut = choice(n + 1);
    if cut > 0 {
        ss.s.tx(DATA, 0, 1, &d[..cut]);
    }
    ss.s.tx(END, 0, 2, &d[cut..]);
    sim::run();
    let mut is_idn = n == 5;
    if n == 5 {
        let q = b"*IDN?";
        for i in 0..5 {
            is_idn &= d[i] == q[i] || ((q[i] as char).is_ascii_uppercase() && d[i] == q[i] + 32);
        }
    }
    let m = ss.s.expect(END, "a command with response is not answered with one DataEnd message");
    check(m.p == 2, "a response does not carry the message id of its command");
    if on && is_idn {
        cover(1);
        check_eq(&m.pl, b"me", "the identification query is not answered with the configured response");
        check(dev::log_len() == 0, "the identification query is passed to the device although a short response is configured");
    } else {
        cover(2);
        expect_execs(&[d.clone()], "the device does not execute exactly the command that was sent");
        check_eq(&m.pl, &d, "the client does not receive exactly the device's response");
    }
    probe_sync(&ss.s, "the command after an identification query is not executed intact");
}

// ------------------------------------------------------------------ H05 ----

static RESP: Global<Vec<Option<Vec<u8>>>> = Global::new(Vec::new());
fn respond_list(_c: &[u8]) -> Option<Vec<u8>> {
    RESP.with(|r| if r.is_empty() { None } else { r.remove(0) })
}
/// Check one response out of the messages received.
fn take_response(ms: &mut Vec<Msg>, want: &[u8], id: u32, max: Option<u64>) {
    let mut got: Vec<u8> = Vec::new();
    if want.is_empty() && (ms.is_empty() || ms[0].ty != END || ms[0].pl.len() > 0) {
        // an empty response: nothing, or one empty DataEnd
        return;
    }
    loop {
        if ms.is_empty() {
            fail("a response is incomplete or missing");
            return;
        }
        let m = ms.remove(0);
        check(m.ty == DATA || m.ty == END, "a response is sent with messages of another type");
        check(m.p == id, "a response does not carry the message id of its command");
        if let Some(max) = max {
            check(m.pl.len() as u64 <= max || max == 0, "a response message is larger than the size the client negotiated");
        }
        got.extend(&m.pl);
        if m.ty == END {
            break;
        }
        if got.len() > want.len() {
            fail("a response has no end");
            return;
        }
    }
    check_eq(&got, want, "the client does not receive exactly the device's response");
}
fn h05(n: usize, len: usize) {
    let _env = start(cfg());
    let ss = session();
    dev::set_respond(respond_list);
    let mut max = None;
    let mut bytes = Vec::new();
    let mut want = Vec::new();
    if choice(2) == 1 {
        // 0..=len one by one, all larger ones together
        let k = choice(len + 2) as u64;
        let v = if k <= len as u64 {
            k
        } else {
            let v = any_u64();
            assume(v > len as u64);
            v
        };
        ss.a.tx(MAX, 0, 0, &v.to_be_bytes());
        sim::run();
        ss.a.expect(MAX_R, "AsyncMaximumMessageSize is not answered");
        max = Some(v);
        cover(1);
    }
    let slow = choice(2) == 1;
    if slow {
        ss.s.s.sim_limit_peer_writes(1, if choice(2) == 0 { 7 } else { 17 });
    }
    for _ in 0..n {
        let id = any_u32();
        let r = match choice(len + 2) {
            0 => None,
            k => Some(any_vec(k - 1)),
        };
        RESP.with(|l| l.push(r.clone()));
        bytes.extend(enc(END, 0, id, b"q"));
        want.push((id, r));
    }
    ss.s.put(&bytes);
    let mut all: Vec<u8> = Vec::new();
    sim::run();
    loop {
        let t = ss.s.s.sim_take();
        if t.is_empty() {
            break;
        }
        all.extend(t);
        sim::run();
    }
    check(!ss.s.closed(), "the session ends although the client did nothing wrong");
    ss.s.s.sim_limit_peer_writes(usize::MAX, usize::MAX);
    // parse what arrived
    let mut ms = parse(&all);
    for (id, r) in &want {
        if let Some(r) = r {
            cover(2);
            take_response(&mut ms, r, *id, max)
        }
    }
    check(ms.is_empty(), "the client receives something that is no response to its commands");
    dev::take_log();
    probe_sync(&ss.s, "the session is unusable after its responses");
}
fn parse(b: &[u8]) -> Vec<Msg> {
    let (x, y) = sim::pipe_pair();
    y.sim_feed(b);
    let c = Conn { s: x };
    c.msgs()
}
fn h_h05_q() {
    h05(2, 4)
}
fn h_h05_t() {
    h05(3, 5)
}
/// Without negotiation a long response still arrives whole.
fn h_h05_long() {
    let _env = start(cfg());
    let ss = session();
    dev::set_respond(respond_list);
    let n = [255, 256, 257, 513][choice(4)];
    let r = any_vec(n);
    RESP.with(|l| l.push(Some(r.clone())));
    ss.s.tx(END, 0, 5, b"q");
    sim::run();
    let mut ms = ss.s.msgs();
    take_response(&mut ms, &r, 5, None);
    check(ms.is_empty(), "the client receives something that is no response to its commands");
    obs(n as u64);
}

// ------------------------------------------------------------------ H06 ----

use symrt::lockmodel::{Model, Why};

/// Lock requests of two sessions and another user of the device.
fn h06(depth: usize) {
    let env = start(cfg());
    let mut ss: Vec<Option<Session>> = vec![Some(session()), Some(session())];
    let mut c = env.other();
    let mut m = Model::new(3);
    let mut pend: Vec<Option<Vec<u8>>> = vec![None, None];
    for _ in 0..depth {
        match choice(6) {
            0 => {
                let i = choice(2);
                if ss[i].is_none() || pend[i].is_some() {
                    prune()
                }
                let s = ss[i].as_ref().unwrap();
                let (text, key): (&[u8], Option<&[u8]>) = match choice(6) {
                    0 => (b"", Some(b"")),
                    1 => (b"a", Some(b"a")),
                    2 => (b"b", Some(b"b")),
                    3 => (b"a\0\0", Some(b"a")),
                    4 => (b"\0", Some(b"")),
                    _ => (b"a\xff", None),
                };
                let wait = choice(2) == 1;
                let t = if wait {
                    let t = any_u32();
                    assume(t != 0);
                    t
                } else {
                    0
                };
                s.a.tx(LOCK, 1, t, text);
                sim::run();
                let w = match key {
                    None => Why::Already,
                    Some(k) => m.want(i, k),
                };
                match w {
                    Why::Ok => {
                        cover(1);
                        let r = s.a.expect(LOCK_R, "a lock request that can be granted is not answered");
                        check(r.cc == 1, "a lock request that can be granted is not answered with success");
                        m.grant(i, key.unwrap());
                    }
                    Why::Already => {
                        let r = s.a.expect(LOCK_R, "an invalid lock request is not answered");
                        check(r.cc == 3, "an invalid lock request is not answered with error");
                    }
                    Why::Locked => {
                        if wait {
                            cover(2);
                            check(s.a.s.sim_avail() == 0, "a lock request is answered before it is granted and before its timeout");
                            pend[i] = Some(key.unwrap().to_vec());
                        } else {
                            let r = s.a.expect(LOCK_R, "a lock request without timeout is not answered at once");
                            check(r.cc == 0, "a lock request that cannot be granted is not answered with failure");
                        }
                    }
                }
            }
            1 => {
                let i = choice(2);
                if ss[i].is_none() || pend[i].is_some() {
                    prune()
                }
                let s = ss[i].as_ref().unwrap();
                s.a.tx(LOCK, 0, any_u32(), b"");
                sim::run();
                let had = m.release(i);
                let r = s.a.expect(LOCK_R, "a lock release is not answered");
                let want = if had.ex {
                    1
                } else if had.sh.is_some() {
                    2
                } else {
                    3
                };
                check(r.cc == want, "a lock release is not answered with the kind of lock released");
                if want == 3 {
                    check(c.lock_info() == (m.any_ex(), m.n_sh()), "a refused release changes the locks");
                }
            }
            2 => {
                let k: &[u8] = [&b""[..], b"a", b"b"][choice(3)];
                let r = c.try_acquire(k);
                if r.is_err() {
                    prune()
                }
                check(m.want(2, k) == Why::Ok, "another user gets a lock against the rules");
                m.grant(2, k);
                sim::run();
            }
            3 => {
                if !m.holds(2) {
                    prune()
                }
                let _ = c.try_release();
                m.release(2);
                sim::run();
            }
            4 => {
                if !sim::fire_timer() {
                    prune()
                }
                sim::run();
                let mut n = 0;
                for i in 0..2 {
                    if pend[i].is_some() {
                        let s = ss[i].as_ref().unwrap();
                        if s.a.s.sim_avail() > 0 {
                            n += 1;
                            cover(3);
                            let r = s.a.expect(LOCK_R, "a lock request that timed out is not answered with one message");
                            check(r.cc == 0, "a lock request that could not be granted in time is not answered with failure");
                            pend[i] = None;
                        }
                    }
                }
                check(n >= 1, "a lock request is not answered although its timeout has passed");
            }
            _ => {
                let i = choice(2);
                if ss[i].is_none() || pend[i].is_some() {
                    prune()
                }
                // the session goes away
                let s = ss[i].take().unwrap();
                s.s.s.sim_close();
                s.a.s.sim_close();
                sim::run();
                m.release(i);
            }
        }
        // requests that became possible have been granted, in some order
        for _ in 0..2 {
            for i in 0..2 {
                if let Some(k) = pend[i].clone() {
                    let s = ss[i].as_ref().unwrap();
                    if s.a.s.sim_avail() > 0 && m.want(i, &k) == Why::Ok {
                        cover(4);
                        let r = s.a.expect(LOCK_R, "a granted lock request is not answered with one message");
                        check(r.cc == 1, "a granted lock request is not answered with success");
                        m.grant(i, &k);
                        pend[i] = None;
                    }
                }
            }
        }
        for i in 0..2 {
            if let Some(k) = &pend[i] {
                let s = ss[i].as_ref().unwrap();
                check(s.a.s.sim_avail() == 0, "a lock request is answered before it is granted and before its timeout");
                check(m.want(i, k) == Why::Locked, "a lock request keeps waiting although it can be granted");
            }
        }
        check(c.lock_info() == (m.any_ex(), m.n_sh()), "the locks held are not those that were reported granted");
        check(c.can_lock().is_ok() == m.may_use(2), "another user may not use the device as the locks say");
        for i in 0..2 {
            if let (Some(s), None) = (&ss[i], &pend[i]) {
                s.a.tx(INFO, 0, 0, b"");
                sim::run();
                let r = s.a.expect(INFO_R, "AsyncLockInfo is not answered");
                check((r.cc == 1) == m.any_ex() && r.cc < 2, "AsyncLockInfo misreports the exclusive lock");
                check(r.p == m.n_sh(), "AsyncLockInfo misreports the number of clients sharing the lock");
            }
        }
    }
    obs(m.n_sh() as u64);
}
fn h_h06_q() {
    h06(4)
}
fn h_h06_t() {
    h06(5)
}
/// A session that disappears while it waits for a lock never holds it.
fn h_h06_gone() {
    let env = start(cfg());
    let s = session();
    let mut c = env.other();
    let _ = c.try_acquire(b"");
    s.a.tx(LOCK, 1, 1000, [&b""[..], b"a"][choice(2)]);
    sim::run();
    s.s.s.sim_close();
    if choice(2) == 1 {
        sim::run();
    }
    s.a.s.sim_close();
    sim::run();
    if choice(2) == 0 {
        let _ = c.try_release();
    } else {
        sim::fire_timer();
        sim::run();
        let _ = c.try_release();
    }
    sim::run();
    check(c.lock_info() == (false, 0), "a session that is gone obtained a lock and keeps it");
    check(sim::tasks_alive() == 1, "a session that is gone is still being served");
}

// ------------------------------------------------------------------ H07 ----

#[derive(Clone, Copy, PartialEq)]
struct Rl {
    remote: Option<bool>,
    lockout: Option<bool>,
}
fn fold_rl(log: &[Ev]) -> Rl {
    let mut r = Rl { remote: None, lockout: None };
    for e in log {
        match e {
            Ev::Remote(x) => r.remote = Some(*x),
            Ev::Lockout(x) => r.lockout = Some(*x),
            _ => {}
        }
    }
    r
}
fn h07(n: usize) {
    let _env = start(cfg());
    let ss = session();
    // the sync channel must not be disturbed
    let mut rem = true; // remote enabled
    for _ in 0..n {
        dev::take_log();
        match choice(4) {
            0 => {
                let code = any_u8();
                let fails = choice(2) == 1;
                if fails {
                    dev::DEV.with(|d| d.remote_err = Some(DeviceError::IoError))
                }
                ss.a.tx(RL, code, any_u32(), b"");
                sim::run();
                let log = dev::take_log();
                let got = fold_rl(&log);
                let called = log.iter().any(|e| matches!(e, Ev::Remote(_)));
                let m = match ss.a.one("a remote/local request is not answered with exactly one message") {
                    Some(m) => m,
                    None => return,
                };
                let want = match code {
                    0 | 2 => Rl { remote: Some(false), lockout: Some(false) },
                    1 => Rl { remote: None, lockout: None },
                    3 => Rl { remote: Some(true), lockout: None },
                    4 => Rl { remote: None, lockout: Some(true) },
                    5 => Rl { remote: Some(true), lockout: Some(true) },
                    6 => Rl { remote: Some(false), lockout: None },
                    _ => {
                        cover(2);
                        check(log.is_empty(), "an unknown remote/local request has an effect on the device");
                        check(m.ty == ERROR && m.cc == 2, "an unknown remote/local request is not answered with UnrecognizedControlCode");
                        dev::DEV.with(|d| d.remote_err = None);
                        continue;
                    }
                };
                cover(1);
                match code {
                    0 | 2 => rem = false,
                    1 | 3 | 4 | 5 => rem = true,
                    _ => {}
                }
                check(got.remote == want.remote, "a remote/local request puts the device in the wrong remote state");
                check(got.lockout == want.lockout, "a remote/local request puts the device in the wrong lockout state");
                check(log.iter().all(|e| matches!(e, Ev::Remote(_) | Ev::Lockout(_))), "a remote/local request does something else to the device");
                if fails && called {
                    check(m.ty == ERROR, "a remote/local request the device refused is acknowledged");
                } else {
                    check(m.ty == RL_R, "a remote/local request is not acknowledged");
                }
                dev::DEV.with(|d| d.remote_err = None);
            }
            1 => {
                let v = any_u8();
                dev::set_stb(v);
                ss.a.tx(STB, any_u8(), any_u32(), b"");
                sim::run();
                let m = ss.a.expect(STB_R, "AsyncStatusQuery is not answered");
                check(m.cc & 0xef == v & 0xef, "AsyncStatusQuery does not return the device's status byte");
                check(m.cc & 0x10 == 0, "the message-available bit is set although there has been no response");
                let log = dev::take_log();
                check(log.iter().any(|e| *e == Ev::Status), "AsyncStatusQuery does not ask the device");
                let got = fold_rl(&log);
                check(got.lockout.is_none(), "a status query changes the local lockout");
                check(got.remote.is_none() || (rem && got.remote == Some(true)), "a status query changes the remote state although remote is not enabled");
                check(log.iter().all(|e| matches!(e, Ev::Status | Ev::Remote(_))), "a status query does something else to the device");
            }
            2 => {
                let k = choice(3);
                let pl = any_vec([8, 7, 0][k]);
                ss.a.tx(MAX, any_u8(), any_u32(), &pl);
                sim::run();
                if k == 0 {
                    cover(3);
                    let m = ss.a.expect(MAX_R, "AsyncMaximumMessageSize is not answered");
                    check_eq(&m.pl, &8u64.to_be_bytes(), "AsyncMaximumMessageSize is not answered with the server's limit");
                } else {
                    let m = match ss.a.one("a request of the wrong size is not answered with exactly one message") {
                        Some(m) => m,
                        None => return,
                    };
                    check(m.ty == FATAL || m.ty == ERROR, "a request of the wrong size is not answered with an error");
                    if m.ty == FATAL {
                        check(ss.a.closed(), "the connection stays open after a fatal error");
                        return;
                    }
                }
                check(dev::log_len() == 0, "a maximum message size request has an effect on the device");
            }
            _ => {
                // message types that do not belong here
                let t = any_u8();
                let sync = choice(2) == 0;
                let c = if sync { &ss.s } else { &ss.a };
                let w = want(if sync { Ctx::Sync } else { Ctx::Async }, false, t, 0);
                if w != Want::AnyNonFatal {
                    prune()
                }
                c.tx(t, any_u8(), any_u32(), b"");
                sim::run();
                let m = match c.one("an unsupported message is not answered with exactly one message") {
                    Some(m) => m,
                    None => return,
                };
                check(m.ty == ERROR, "an unsupported message is not answered with a non-fatal error");
                check(!c.closed(), "an unsupported message closes the connection");
                check(dev::log_len() == 0, "an unsupported message has an effect on the device");
            }
        }
    }
    dev::take_log();
    probe_sync(&ss.s, "the session is unusable after control requests");
    probe_async(&ss.a, "the session is unusable after control requests");
}
fn h_h07_q() {
    h07(2)
}
fn h_h07_t() {
    h07(3)
}

// ------------------------------------------------------------------ H08 ----

static ACK_SEEN: Global<Option<TcpStream>> = Global::new(None);
fn respond_h08(c: &[u8]) -> Option<Vec<u8>> {
    ACK_SEEN.with(|a| {
        if let Some(a) = a {
            check(a.sim_avail() == 0, "a command sent before a device clear is executed after the clear was acknowledged");
        }
    });
    if c.len() > 0 && c[0] == b'r' {
        Some(vec![1, 2, 3, 4, 5])
    } else {
        None
    }
}
fn sync_msg(k: usize) -> Vec<u8> {
    match k {
        0 => enc(DATA, 0, 1, &any_vec(1)),
        1 => enc(END, 0, 2, b"r"),
        2 => enc(END, 0, 3, &[b'x', any_u8()]),
        3 => enc(TRIG, 0, 4, b""),
        4 => enc(200, 0, 0, b"v"),
        _ => enc(END, 0, 3, b"far too long"),
    }
}
fn h08(pre: usize, mid: usize, rounds: usize) {
    // with several rounds, fewer variations of each
    let full = rounds == 1;
    let env = start(cfg());
    let ss = session();
    dev::set_respond(respond_h08);
    let mut other = env.other();
    // small messages so that a response takes several
    ss.a.tx(MAX, 0, 0, &2u64.to_be_bytes());
    sim::run();
    ss.a.msgs();
    let mut busy: Option<MutexGuard<Dev>> = None;
    let slow = full && choice(2) == 1;
    if slow {
        ss.s.s.sim_limit_peer_writes(1, usize::MAX);
    }
    for _ in 0..rounds {
        let held = choice(if full { 3 } else { 2 });
        match held {
            1 => {
                let _ = other.try_acquire(b"");
            }
            2 => busy = env.dev.try_lock(),
            _ => {}
        }
        let n = choice(pre + 1);
        let step = full && choice(2) == 1;
        let mut want = Vec::new();
        let mut buf: Vec<u8> = Vec::new();
        for _ in 0..n {
            let k = choice(4);
            let b = sync_msg(k);
            match k {
                0 => buf.extend(&b[16..]),
                1 | 2 => {
                    buf.extend(&b[16..]);
                    want.push(Ev::Exec(std::mem::take(&mut buf)))
                }
                _ => want.push(Ev::Trigger(Source::Bus)),
            }
            ss.s.put(&b);
            if step {
                sim::run()
            }
        }
        if choice(2) == 1 {
            sim::run();
        }
        ACK_SEEN.with(|a| *a = Some(ss.a.s.clone()));
        ss.a.tx(ACLR, 0, 0, b"");
        let release_first = held != 0 && choice(2) == 1;
        if release_first {
            other.force_release();
            busy = None;
        }
        sim::set_sched_budget(1);
        sim::run();
        sim::set_sched_budget(0);
        let m = match ss.a.one("AsyncDeviceClear is not acknowledged") {
            Some(m) => m,
            None => return,
        };
        check(m.ty == ACLR_R, "AsyncDeviceClear is not acknowledged");
        // what was executed so far is a prefix of what was sent
        let done = dev::take_log();
        check(done.len() <= want.len(), "something is executed that was not sent");
        for i in 0..done.len().min(want.len()) {
            match (&done[i], &want[i]) {
                (Ev::Exec(a), Ev::Exec(b)) => check_eq(a, b, "a command is not executed intact"),
                (a, b) => check(a == b, "commands are executed out of order"),
            }
        }
        if held != 0 && !release_first {
            check(done.is_empty(), "a command is executed while the device is locked or in use");
        }
        ACK_SEEN.with(|a| *a = None);
        if choice(2) == 1 && held != 0 {
            cover(1);
            other.force_release();
            busy = None;
            sim::run();
        }
        let mut n_err = 0;
        for _ in 0..choice(mid + 1) {
            let k = choice(6);
            if k >= 4 {
                n_err += 1
            }
            ss.s.put(&sync_msg(k));
            if full && choice(2) == 1 {
                sim::run();
            }
        }
        let _ = n_err;
        let req = any_u8();
        ss.s.tx(CLR_DONE, req, 0, b"");
        sim::run();
        // a lock may be granted while the device is still in use
        if busy.is_some() && choice(2) == 1 {
            check(other.try_acquire([&b""[..], b"a"][choice(2)]).is_ok(), "a lock is refused although nobody holds one");
        }
        busy = None;
        let may = other.lock_info() == (false, 0);
        let ms = all_msgs(&ss.s);
        let acks: Vec<&Msg> = ms.iter().filter(|m| m.ty == CLR_ACK).collect();
        if acks.len() != 1 {
            fail("DeviceClearComplete is not answered with one DeviceClearAcknowledge");
            return;
        }
        check(acks[0].cc & 1 == req & 1, "DeviceClearAcknowledge does not echo the requested overlap mode");
        check(ms[ms.len() - 1].ty == CLR_ACK, "something is sent after DeviceClearAcknowledge");
        for m in &ms {
            check(m.ty == CLR_ACK || m.ty == DATA || m.ty == END || m.ty == ERROR, "an unexpected message is sent during a device clear");
        }
        let log = dev::take_log();
        if may {
            cover(2);
            check(log.len() == 1 && log[0] == Ev::Clear, "a device clear does not clear the device, or executes what should be discarded");
        } else {
            check(log.is_empty(), "a device clear affects a device the session may not use, or executes what should be discarded");
        }
        other.force_release();
        sim::run();
        check(dev::log_len() == 0, "something discarded by a device clear is executed later");
        ss.s.tx(END, 0, 9, b"x1");
        sim::run();
        expect_execs(&[b"x1".to_vec()], "a command after a device clear is not executed intact");
        check(ss.s.s.sim_avail() == 0, "something discarded by a device clear is answered later");
    }
    dev::take_log();
    ss.s.s.sim_limit_peer_writes(usize::MAX, usize::MAX);
    probe_sync(&ss.s, "the session is unusable after a device clear");
    probe_async(&ss.a, "the session is unusable after a device clear");
    drop(busy);
}
fn h_h08_q() {
    h08(2, 1, 1)
}
fn h_h08_2() {
    h08(1, 1, 2)
}
fn h_h08_t() {
    h08(2, 2, 1)
}

// ------------------------------------------------------------------ H09 ----

fn h09(depth: usize, nsess: usize) {
    let mut env = start(cfg());
    let ss: Vec<Session> = (0..nsess).map(|_| session()).collect();
    dev::set_respond(no_response);
    let mut open = vec![false; nsess]; // request outstanding
    let mut half: Vec<Option<(u8, Vec<u8>)>> = vec![None; nsess]; // rest of a message under way
    for _ in 0..depth {
        match choice(4) {
            0 => {
                let n = 1 + choice(2);
                let v = any_vec(n);
                for k in 0..n {
                    env.srq.send_status(v[k]);
                }
                sim::run();
                for i in 0..nsess {
                    let ms = ss[i].a.msgs();
                    if open[i] {
                        cover(2);
                        check(ms.is_empty(), "a service request is sent although one is outstanding");
                    } else {
                        cover(1);
                        if ms.len() != 1 {
                            fail("a status change does not lead to exactly one service request");
                            return;
                        }
                        check(ms[0].ty == SRQ, "a status change is not sent as AsyncServiceRequest");
                        check(ms[0].cc == v[0], "AsyncServiceRequest does not carry the signalled status");
                        open[i] = true;
                    }
                }
            }
            1 => {
                // start a message
                let i = choice(nsess);
                if half[i].is_some() {
                    prune()
                }
                let (t, b) = match choice(3) {
                    0 => (STB_R, enc(STB, 0, 0, b"")),
                    1 => (INFO_R, enc(INFO, 0, 0, b"abc")),
                    _ => (ERROR, enc(200, 0, 0, b"xy")),
                };
                let cut = [0, 1, 16, 17][choice(4)];
                if cut >= b.len() {
                    prune()
                }
                ss[i].a.put(&b[..cut]);
                half[i] = Some((t, b[cut..].to_vec()));
                sim::run();
                check(ss[i].a.s.sim_avail() == 0, "an incomplete message is answered");
            }
            2 => {
                let i = choice(nsess);
                match half[i].take() {
                    None => prune(),
                    Some((t, b)) => {
                        // possibly with a status change at the same time
                        let sig = choice(2) == 1;
                        let first = sig && choice(2) == 1;
                        if first {
                            env.srq.send_status(3)
                        }
                        dev::set_stb(any_u8());
                        ss[i].a.put(&b);
                        if sig && !first {
                            env.srq.send_status(3)
                        }
                        sim::run();
                        let mut n_srq = 0;
                        let mut n_ans = 0;
                        let before = open[i];
                        for m in ss[i].a.msgs() {
                            if m.ty == SRQ {
                                check(!open[i], "a service request is sent although one is outstanding");
                                check(m.cc == 3, "AsyncServiceRequest does not carry the signalled status");
                                open[i] = true;
                                n_srq += 1;
                            } else {
                                check(m.ty == t, "a message is not answered correctly when the status changes");
                                if m.ty == STB_R {
                                    open[i] = false;
                                }
                                n_ans += 1;
                            }
                        }
                        check(n_ans == 1, "a message is lost or answered twice when the status changes");
                        if sig {
                            cover(3);
                            // with no request outstanding the change must be reported
                            check(n_srq <= 1, "one status change leads to two service requests");
                            check(n_srq == 1 || before, "a status change is not reported");
                        } else {
                            check(n_srq == 0, "a service request is sent although the status was not signalled");
                        }
                        if sig {
                            for k in 0..nsess {
                                if k != i {
                                    let ms = ss[k].a.msgs();
                                    check(ms.len() == if open[k] { 0 } else { 1 }, "a status change is not reported to another session exactly once");
                                    open[k] = true;
                                }
                            }
                        }
                    }
                }
            }
            _ => {
                // traffic on the synchronous channel
                let i = choice(nsess);
                ss[i].s.tx(END, 0, 1, b"q");
                sim::run();
                check(ss[i].s.s.sim_avail() == 0 && ss[i].a.s.sim_avail() == 0, "a command without response is answered");
                expect_execs(&[b"q".to_vec()], "a command is not executed exactly once");
            }
        }
        for s in &ss {
            check(!s.a.closed() && !s.s.closed(), "a status change closes a session");
        }
    }
    obs(open[0] as u64);
}
fn h_h09_q() {
    h09(4, 1)
}
fn h_h09_two() {
    h09(3, 2)
}
fn h_h09_t() {
    h09(6, 1)
}
fn h_h09_two_t() {
    h09(4, 2)
}

// ------------------------------------------------------------------ H10 ----

static GATE: Global<Option<(Arc<SpinMutex<SharedLock>>, bool, bool, bool)>> = Global::new(None);
fn gate_check() {
    GATE.with(|g| {
        if let Some((lock, b_ex, b_sh, b_dev)) = g {
            let l = lock.lock();
            let (ex, n) = (l.exclusive_lock(), l.num_shared_locks());
            drop(l);
            let a_ex = ex && !*b_ex;
            let a_sh = n > *b_sh as u32;
            check(!*b_dev, "a command is executed while another client uses the device");
            check(!*b_ex, "a command is executed while another client holds the exclusive lock");
            check(a_ex || a_sh || !*b_sh, "a command is executed while another client holds a shared lock");
        }
    })
}
fn respond_gate(c: &[u8]) -> Option<Vec<u8>> {
    gate_check();
    Some(c.to_vec())
}
/// The request under way on the asynchronous channel, if it has been answered.
fn h10_pending(a: &Session, m: &mut Model, pend: &mut Option<(u8, Vec<u8>)>) {
    for x in a.a.msgs() {
        match pend.take() {
            Some((t, k)) => {
                check(x.ty == t, "a request is answered with a message of the wrong type");
                if t == LOCK_R {
                    check(x.cc == 1, "a lock request is refused although it can still be granted");
                    m.grant(0, &k);
                }
            }
            None => fail("an answer without a request"),
        }
    }
}
fn h10(depth: usize) {
    let env = start(cfg());
    let a = session();
    let mut b = env.other();
    dev::set_respond(respond_gate);
    GATE.with(|g| *g = Some((env.lock.clone(), false, false, false)));
    let set = |ex: bool, sh: bool, dv: bool| GATE.with(|g| *g = Some((env.lock.clone(), ex, sh, dv)));
    let mut m = Model::new(2);
    let mut busy: Option<MutexGuard<Dev>> = None;
    let mut sent: Vec<Ev> = Vec::new();
    let mut log: Vec<Ev> = Vec::new();
    let mut ans: Vec<Msg> = Vec::new();
    let mut pend: Option<(u8, Vec<u8>)> = None;
    for _ in 0..depth {
        let quiet = choice(2) == 0;
        match choice(6) {
            0 => {
                if choice(4) == 0 {
                    a.s.tx(TRIG, 0, 1, b"");
                    sent.push(Ev::Trigger(Source::Bus));
                } else {
                    let d = any_vec(1);
                    a.s.tx(END, 0, 1, &d);
                    sent.push(Ev::Exec(d));
                }
            }
            1 => {
                let k: &[u8] = [&b""[..], b"a"][choice(2)];
                if b.try_acquire(k).is_err() {
                    prune()
                }
                m.grant(1, k);
            }
            2 => {
                if !m.holds(1) {
                    prune()
                }
                let _ = b.try_release();
                m.release(1);
            }
            3 => match busy.take() {
                Some(_) => {}
                None => match b.try_lock() {
                    Ok(g) => busy = Some(unsafe { std::mem::transmute::<MutexGuard<Dev>, MutexGuard<Dev>>(g) }),
                    Err(_) => prune(),
                },
            },
            4 => {
                let k: &[u8] = [&b""[..], b"a"][choice(2)];
                if pend.is_some() || m.want(0, k) == Why::Already {
                    prune()
                }
                // granted at once, or waited for
                a.a.tx(LOCK, 1, 1000, k);
                pend = Some((LOCK_R, k.to_vec()));
                sim::run();
            }
            _ => {
                if pend.is_some() {
                    prune()
                }
                let k = choice(if m.holds(0) { 3 } else { 2 });
                if k == 2 {
                    a.a.tx(LOCK, 0, 0, b"");
                    sim::run();
                    a.a.msgs();
                    m.release(0);
                } else if k == 1 {
                    a.a.tx(RL, 5, 0, b"");
                    pend = Some((RL_R, Vec::new()));
                } else {
                    if busy.is_some() {
                        prune()
                    }
                    a.a.tx(STB, 0, 0, b"");
                    sim::run();
                    let x = a.a.expect(STB_R, "a status query is not answered while the device is locked");
                    check(x.ty == STB_R, "a status query is not answered while the device is locked");
                }
            }
        }
        set(m.h[1].ex, m.h[1].sh.is_some(), busy.is_some());
        if quiet {
            sim::run();
        }
        h10_pending(&a, &mut m, &mut pend);
        log.extend(dev::take_log().into_iter().filter(|e| matches!(e, Ev::Exec(_) | Ev::Trigger(_))));
        ans.extend(a.s.msgs());
        if !m.may_use(0) || busy.is_some() {
            cover(1)
        } else if quiet {
            check(log.len() == sent.len(), "a command waits although the session may use the device");
        }
    }
    // everything is released in the end
    busy = None;
    b.force_release();
    m.release(1);
    set(false, false, false);
    sim::set_sched_budget(2);
    sim::run();
    h10_pending(&a, &mut m, &mut pend);
    check(pend.is_none(), "a lock or control request is not completed although nothing stands in its way");
    log.extend(dev::take_log().into_iter().filter(|e| matches!(e, Ev::Exec(_) | Ev::Trigger(_))));
    ans.extend(a.s.msgs());
    if log.len() != sent.len() {
        fail("a command that had to wait is lost, or executed twice");
        return;
    }
    let mut k = 0;
    for i in 0..sent.len() {
        match (&log[i], &sent[i]) {
            (Ev::Exec(x), Ev::Exec(y)) => {
                check_eq(x, y, "commands are not executed in order");
                if k >= ans.len() {
                    fail("a response is missing");
                    return;
                }
                check_eq(&ans[k].pl, y, "a command receives another command's response");
                k += 1;
            }
            (x, y) => check(x == y, "commands are not executed in order"),
        }
    }
    check(k == ans.len(), "something is sent that is no response");
    if k > 0 {
        cover(2)
    }
    GATE.with(|g| *g = None);
    drop(busy);
}
fn h_h10_q() {
    h10(4)
}
fn h_h10_t() {
    h10(5)
}

// ----------------------------------------------------------------- H11 ----
fn h_h11_codes() {
    match choice(4) {
        0 => {
            let t = any_u8();
            match MessageType::from_message_type(t) {
                Some(m) => {
                    cover(1);
                    check(t < 39 || t >= 128, "an unassigned code is taken for a message type");
                    check(m.get_message_type() == t, "a message type is not encoded as the code it was decoded from");
                    check(MessageType::from_message_type(m.get_message_type()) == Some(m), "a message type does not survive encoding and decoding");
                    check(matches!(m, MessageType::VendorSpecific(_)) == (t >= 128), "a vendor-specific message type is taken for another one");
                }
                None => {
                    cover(2);
                    check(t >= 39 && t < 128, "an assigned message type is not known");
                }
            }
        }
        1 => {
            // the codes the protocol assigns
            let all = [
                (MessageType::Initialize, 0u8),
                (MessageType::InitializeResponse, 1),
                (MessageType::FatalError, 2),
                (MessageType::Error, 3),
                (MessageType::AsyncLock, 4),
                (MessageType::AsyncLockResponse, 5),
                (MessageType::Data, 6),
                (MessageType::DataEnd, 7),
                (MessageType::DeviceClearComplete, 8),
                (MessageType::DeviceClearAcknowledge, 9),
                (MessageType::AsyncRemoteLocalControl, 10),
                (MessageType::AsyncRemoteLocalResponse, 11),
                (MessageType::Trigger, 12),
                (MessageType::Interrupted, 13),
                (MessageType::AsyncInterrupted, 14),
                (MessageType::AsyncMaximumMessageSize, 15),
                (MessageType::AsyncMaximumMessageSizeResponse, 16),
                (MessageType::AsyncInitialize, 17),
                (MessageType::AsyncInitializeResponse, 18),
                (MessageType::AsyncDeviceClear, 19),
                (MessageType::AsyncServiceRequest, 20),
                (MessageType::AsyncStatusQuery, 21),
                (MessageType::AsyncStatusResponse, 22),
                (MessageType::AsyncDeviceClearAcknowledge, 23),
                (MessageType::AsyncLockInfo, 24),
                (MessageType::AsyncLockInfoResponse, 25),
                (MessageType::GetDescriptors, 26),
                (MessageType::GetDescriptorsResponse, 27),
                (MessageType::StartTLS, 28),
                (MessageType::AsyncStartTLS, 29),
                (MessageType::AsyncStartTLSResponse, 30),
                (MessageType::EndTLS, 31),
                (MessageType::AsyncEndTLS, 32),
                (MessageType::AsyncEndTLSResponse, 33),
                (MessageType::GetSaslMechanismList, 34),
                (MessageType::GetSaslMechanismListResponse, 35),
                (MessageType::AuthenticationStart, 36),
                (MessageType::AuthenticationExchange, 37),
                (MessageType::AuthenticationResult, 38),
            ];
            let (m, c) = all[choice(all.len())];
            check(m.get_message_type() == c, "a message type has the wrong code");
            check(MessageType::from_message_type(c) == Some(m), "a code stands for the wrong message type");
        }
        2 => {
            let c = any_u8();
            let f = FatalErrorCode::from_error_code(c);
            check(f.error_code() == c, "a fatal error is not encoded as the code it was decoded from");
            let ok = match f {
                FatalErrorCode::UnidentifiedError => c == 0,
                FatalErrorCode::PoorlyFormattedMessageHeader => c == 1,
                FatalErrorCode::AttemptUseWithoutBothChannels => c == 2,
                FatalErrorCode::InvalidInitialization => c == 3,
                FatalErrorCode::MaximumClientsExceeded => c == 4,
                FatalErrorCode::SecureConnectionFailed => c == 5,
                FatalErrorCode::Extension(_) => c > 5 && c < 128,
                _ => c >= 128,
            };
            check(ok, "a code stands for the wrong fatal error");
            let n = NonFatalErrorCode::from_error_code(c);
            check(n.error_code() == c, "a non-fatal error is not encoded as the code it was decoded from");
            let ok = match n {
                NonFatalErrorCode::UnidentifiedError => c == 0,
                NonFatalErrorCode::UnrecognizedMessageType => c == 1,
                NonFatalErrorCode::UnrecognizedControlCode => c == 2,
                NonFatalErrorCode::UnrecognizedVendorDefinedMessage => c == 3,
                NonFatalErrorCode::MessageTooLarge => c == 4,
                NonFatalErrorCode::AuthenticationFailed => c == 5,
                NonFatalErrorCode::Extension(_) => c > 5 && c < 128,
                _ => c >= 128,
            };
            check(ok, "a code stands for the wrong non-fatal error");
        }
        _ => {
            let (v, w, id) = (any_u16(), any_u16(), any_u16());
            let (p, q) = (Protocol::from(v), Protocol::from(w));
            check(u16::from(p) == v, "a protocol version does not survive conversion");
            check(p.major() as u16 == v >> 8 && p.minor() as u16 == v & 0xff, "a protocol version has the wrong parts");
            check(p.as_parameter(id) == (v as u32) << 16 | id as u32, "version and session id are packed wrongly");
            let newer = p.major() > q.major() || p.major() == q.major() && p.minor() > q.minor();
            check((p > q) == newer, "protocol versions are ordered wrongly");
            check((p == q) == (v == w), "different protocol versions are equal");
            check(std::cmp::min(p, q) == if newer { q } else { p }, "the smaller protocol version is wrong");
        }
    }
}

// ------------------------------------------------------ long and many ----

/// Everything the server sends, also while its writes wait for the client.
fn all_msgs(c: &Conn) -> Vec<Msg> {
    let mut all: Vec<u8> = Vec::new();
    loop {
        sim::run();
        let t = c.s.sim_take();
        if t.is_empty() {
            break;
        }
        all.extend(t);
    }
    parse(&all)
}
fn pattern(n: usize, from: u8) -> Vec<u8> {
    (0..n).map(|i| from + (i % 23) as u8).collect()
}
/// Program messages of every size up to the limit and beyond, in few or many pieces.
fn h_h04_long() {
    let limit = [256u64, 65536, 1 << 20][choice(3)];
    let _env = start(cfg().max_message_size(limit));
    let ss = session();
    dev::set_respond(no_response);
    let n = [0, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4096, 8193, 65535, 65536, 65537, 130000][choice(15)];
    let mut d = pattern(n, b'A');
    let x = any_u8();
    if n > 0 {
        d[[0, n / 2, n - 1][choice(3)]] = x;
    }
    // pieces
    let f = [n, 255, 256, 4096, 65535][choice(5)];
    if f > n || (f == 0 && n > 0) || (n > 0 && f as u64 > limit) {
        prune()
    }
    let mut bytes = Vec::new();
    let mut i = 0;
    while f > 0 && i + f < n {
        bytes.extend(enc(DATA, 0, 2, &d[i..i + f]));
        i += f;
    }
    bytes.extend(enc(END, 1, 2, &d[i..]));
    bytes.extend(enc(END, 1, 4, b"next"));
    match choice(3) {
        0 => ss.s.put(&bytes),
        1 => {
            for c in bytes.chunks(1000) {
                ss.s.put(c);
                sim::run();
            }
        }
        _ => {
            // the header apart from the rest
            ss.s.put(&bytes[..16]);
            sim::run();
            ss.s.put(&bytes[16..]);
        }
    }
    sim::run();
    cover(1);
    expect_log(
        &[Ev::Exec(d), Ev::Exec(b"next".to_vec())],
        "the device does not execute exactly the complete messages that were sent",
    );
    check(ss.s.msgs().is_empty(), "a command without response is answered");
}
/// Just within and just beyond the size limit.
fn h_h01_size() {
    let limit = [0usize, 1, 255, 256, 4096, 65535, 65536, 100000][choice(8)];
    let _env = start(cfg().max_message_size(limit as u64));
    let ss = session();
    dev::set_respond(no_response);
    let over = [0, 1, 2, 16, 300, 65536][choice(6)];
    let n = limit + over;
    let (on_sync, ty) = [(true, END), (true, DATA), (true, 200), (true, 99), (false, LOCK), (false, 130), (false, 77)][choice(7)];
    let c = if on_sync { &ss.s } else { &ss.a };
    let mut d = pattern(n, b'A');
    if n > 0 {
        d[[0, n / 2, n - 1][choice(3)]] = any_u8();
    }
    let b = enc(ty, 1, 0, &d);
    match choice(3) {
        0 => c.put(&b),
        1 => {
            for p in b.chunks(1000) {
                c.put(p);
                sim::run();
            }
        }
        _ => {
            // (the payload may look like a message)
            let mut b = b;
            if n >= 16 {
                let e = enc(END, 0, 0, b"");
                for (i, v) in e.iter().enumerate() {
                    b[16 + n - 16 + i] = *v;
                }
            }
            c.put(&b);
        }
    }
    sim::run();
    let ms = c.msgs();
    if over > 0 {
        cover(1);
        if ms.len() != 1 {
            fail("a message is not answered with exactly one message");
            return;
        }
        check(ms[0].ty == ERROR && ms[0].cc == 4, "a message that is too large is not answered with the error MessageTooLarge");
        check(dev::log_len() == 0, "a message that is too large is executed");
    } else {
        cover(2);
        for m in &ms {
            check(m.ty != FATAL && !(m.ty == ERROR && m.cc == 4), "a message within the limit is refused as too large");
        }
    }
    check(!c.closed(), "the session closes on a message that is too large");
    if limit >= 16 {
        if on_sync {
            if ty == DATA && over == 0 {
                ss.s.tx(END, 0, 2, b"");
                sim::run();
            }
            probe_sync(&ss.s, PROC)
        } else {
            probe_async(&ss.a, PROC)
        }
    }
}
/// Many messages in a row, their ids wrapping around, each answered.
fn many_messages(h05: bool) {
    let env = start(cfg());
    let ss = session();
    dev::set_respond(|c| if c.is_empty() || c[0] == b'n' { None } else { Some(c.to_vec()) });
    let n = 700usize;
    let at = [0, 127, 128, 255, 256, 511, 512, n - 1][choice(8)];
    let x = any_u8();
    assume(x != b'n');
    let first = [0xffff_ff00u32, 0, 0x7fff_ffe0, 0xffff_fffe, 0xfff0][choice(5)];
    let how = choice(3);
    let mut other = env.other();
    if how == 2 {
        // everything waits for a lock first
        check(other.try_acquire(b"").is_ok(), "harness: lock");
    }
    let slow = choice(2) == 1;
    if slow {
        ss.s.s.sim_limit_peer_writes(1, 64);
    }
    let mut want = Vec::new();
    let mut resp = Vec::new();
    let mut id = first;
    for i in 0..n {
        if i % 11 == 3 && i != at {
            ss.s.tx(TRIG, 0, id, b"");
            want.push(Ev::Trigger(Source::Bus));
        } else {
            let mut d = pattern(1 + i % 4, if i % 7 == 5 { b'n' } else { b'A' });
            if i == at {
                d[0] = x;
            }
            ss.s.tx(END, (i & 1) as u8, id, &d);
            if d[0] != b'n' {
                resp.push((id, d.clone()));
            }
            want.push(Ev::Exec(d));
        }
        id = id.wrapping_add(2);
        if how == 0 && !slow {
            sim::run();
        }
    }
    if how == 2 {
        sim::run();
        check(dev::log_len() == 0, "a command is executed while another client holds the exclusive lock");
        other.force_release();
    }
    let mut ms = all_msgs(&ss.s);
    check(!ss.s.closed(), "the session closes on valid messages");
    cover(1);
    if h05 {
        for (id, d) in &resp {
            take_response(&mut ms, d, *id, None)
        }
        check(ms.is_empty(), "the client receives something that is no response to its commands");
    } else {
        expect_log(&want, "the device does not execute exactly the complete messages that were sent");
    }
}
fn h_h04_many() {
    many_messages(false)
}
fn h_h05_many() {
    many_messages(true)
}
/// Long responses under every negotiated size.
fn h_h05_big() {
    let _env = start(cfg());
    let ss = session();
    dev::set_respond(respond_list);
    let max = [None, Some(0u64), Some(16), Some(255), Some(256), Some(1000), Some(65535), Some(65536), Some(65537), Some(1 << 32), Some((1 << 32) + 256), Some(1 << 63)][choice(12)];
    if let Some(m) = max {
        if choice(2) == 1 {
            // not the first negotiation
            ss.a.tx(MAX, 0, 0, &300u64.to_be_bytes());
        }
        ss.a.tx(MAX, 0, 0, &m.to_be_bytes());
        sim::run();
        ss.a.msgs();
    }
    let n = [255, 256, 257, 1000, 4096, 65535, 65536, 65537, 70000, 200_000][choice(10)];
    if n > 10000 && matches!(max, Some(1..=254)) {
        prune()
    }
    if let Some(0) = max {
        // no message fits: only the server's survival counts
        prune()
    }
    let mut r = pattern(n, b'a');
    r[[0, n / 2, n - 1][choice(3)]] = any_u8();
    RESP.with(|l| {
        l.push(Some(r.clone()));
        l.push(Some(b"2nd".to_vec()));
    });
    if choice(2) == 1 {
        ss.s.s.sim_limit_peer_writes(1, 5000);
    }
    let id = any_u32();
    ss.s.tx(END, 0, id, b"q");
    ss.s.tx(END, 0, id.wrapping_add(2), b"q");
    let mut ms = all_msgs(&ss.s);
    cover(1);
    take_response(&mut ms, &r, id, max);
    take_response(&mut ms, b"2nd", id.wrapping_add(2), max);
    check(ms.is_empty(), "the client receives something that is no response to its commands");
}
/// Many clients share a lock; the lock information counts them all.
fn h_h06_many() {
    let env = start(cfg());
    let ss = session();
    let n = [0, 1, 2, 127, 128, 255, 256, 257, 300][choice(9)];
    let mut hs: Vec<LockHandle<Dev>> = (0..n).map(|_| env.other()).collect();
    for h in &mut hs {
        check(h.try_acquire(b"a").is_ok(), "harness: lock");
    }
    let mine = choice(2) == 1;
    if mine {
        ss.a.tx(LOCK, 1, 0, b"a");
        sim::run();
        let r = ss.a.expect(LOCK_R, "a lock request that can be granted is not answered");
        check(r.cc == 1, "a lock request that can be granted is not answered with success");
    }
    let ex = choice(2) == 1 && (mine || n > 0);
    if ex {
        if mine {
            ss.a.tx(LOCK, 1, 0, b"");
            sim::run();
            let r = ss.a.expect(LOCK_R, "a lock request that can be granted is not answered");
            check(r.cc == 1, "a lock request that can be granted is not answered with success");
        } else {
            check(hs[n - 1].try_acquire(b"").is_ok(), "harness: lock");
        }
    }
    ss.a.tx(INFO, 0, 0, b"");
    sim::run();
    let r = ss.a.expect(INFO_R, "AsyncLockInfo is not answered");
    check(r.cc == ex as u8, "the lock information misreports the exclusive lock");
    check(r.p == (n + mine as usize) as u32, "the lock information misreports how many clients share the lock");
    cover(1);
    // one after the other gives up
    while let Some(h) = hs.pop() {
        drop(h);
    }
    ss.a.tx(INFO, 0, 0, b"");
    sim::run();
    let r = ss.a.expect(INFO_R, "AsyncLockInfo is not answered");
    check(r.p == mine as u32, "the lock information misreports how many clients share the lock");
    check(r.cc == (ex && mine) as u8, "the lock information misreports the exclusive lock");
}
/// Locks taken and given back again and again.
fn h_h06_cycles() {
    let env = start(cfg());
    let ss = session();
    let mut other = env.other();
    let key: &[u8] = [&b""[..], b"k", &[b'k'; 255], &[b'k'; 256]][choice(4)];
    let env2 = key.len() > 8;
    if env2 {
        // (the limit of message sizes is 8 here)
        ss.a.tx(LOCK, 1, 0, key);
        sim::run();
        let r = ss.a.expect(ERROR, "a message that is too large is not answered with an error");
        check(r.cc == 4, "a non-fatal error carries the wrong code");
    } else {
        let wait = choice(2) == 1;
        for i in 0..300u32 {
            if wait {
                check(other.try_acquire(b"").is_ok(), "a lock is refused although nobody holds one");
            }
            ss.a.tx(LOCK, 1, if wait { 1000 } else { 0 }, key);
            sim::run();
            if wait {
                check(ss.a.s.sim_avail() == 0, "a lock request is answered before it is granted and before its timeout");
                other.force_release();
                sim::run();
            }
            let r = ss.a.expect(LOCK_R, "a lock request that can be granted is not answered");
            check(r.cc == 1, "a lock request that can be granted is not answered with success");
            check(other.try_acquire(b"other").is_err(), "a lock was granted against the rules");
            ss.a.tx(LOCK, 0, i, b"");
            sim::run();
            let r = ss.a.expect(LOCK_R, "a release is not answered");
            check(r.cc == if key.is_empty() { 1 } else { 2 }, "a release is answered with the wrong kind of lock");
        }
    }
    cover(1);
    check(other.lock_info() == (false, 0), "locks remain after every one was released");
}
/// Clears again and again, each forgetting what preceded it and nothing else.
fn h_h08_many() {
    let _env = start(cfg());
    let ss = session();
    dev::set_respond(|c| Some(c.to_vec()));
    let x = any_vec(1);
    for i in 0..40u32 {
        if i % 3 != 2 {
            ss.s.tx(DATA, 0, i, b"lost");
        }
        if i % 4 == 1 {
            sim::run();
        }
        ss.a.tx(ACLR, 0, 0, b"");
        sim::run();
        ss.a.expect(ACLR_R, "AsyncDeviceClear is not acknowledged");
        if i % 5 == 0 {
            ss.s.tx(END, 0, i, b"lost");
            ss.s.tx(TRIG, 0, i, b"");
        }
        ss.s.tx(CLR_DONE, (i & 1) as u8, 0, b"");
        sim::run();
        let r = ss.s.expect(CLR_ACK, "DeviceClearComplete is not acknowledged");
        check(r.cc & 1 == (i & 1) as u8, "DeviceClearAcknowledge does not carry the requested mode");
        let log = dev::take_log();
        check(log.len() == 1 && log[0] == Ev::Clear, "a clear does not clear the device, exactly once, or executes what it discards");
        ss.s.tx(END, 0, 2 * i, &x);
        sim::run();
        expect_execs(&[x.clone()], "a command after a clear is not executed intact");
        let mut ms = ss.s.msgs();
        take_response(&mut ms, &x, 2 * i, None);
        check(ms.is_empty(), "the client receives something that is no response to its commands");
    }
    cover(1);
}
/// Service requests again and again.
fn h_h09_many() {
    let mut env = start(cfg());
    let ss = session();
    dev::set_respond(no_response);
    let v = any_u8();
    for i in 0..300u32 {
        env.srq.send_status(v);
        if i % 2 == 0 {
            env.srq.send_status(9);
        }
        sim::run();
        let ms = ss.a.msgs();
        check(ms.len() == 1 && ms[0].ty == SRQ && ms[0].cc == v, "a status change does not lead to exactly one service request");
        dev::set_stb(v);
        ss.a.tx(STB, 0, i, b"");
        sim::run();
        let ms = ss.a.msgs();
        check(ms.len() == 1 && ms[0].ty == STB_R, "a status query is not answered with exactly one message");
        if i % 50 == 0 {
            probe_sync(&ss.s, "service requests harm the synchronous channel");
            dev::set_respond(no_response);
        }
    }
    cover(1);
}
/// As many sessions as the default limit allows, all waiting for the device.
fn h_h03_many() {
    let limit = [3, 17, 64][choice(3)];
    let env = start(ServerConfig::default().max_num_sessions(limit));
    let mut other = env.other();
    let mut ss: Vec<Session> = Vec::new();
    for _ in 0..limit {
        let s = session();
        check(ss.iter().all(|t| t.id != s.id), "two live sessions have the same id");
        ss.push(s);
    }
    let refused = || {
        let c = Conn::open();
        c.tx(INIT, 0, 0x0100_0000, b"");
        sim::run();
        expect_fatal(&c, 4, "an Initialize beyond the limit is not refused with MaximumClientsExceeded");
    };
    refused();
    check(other.try_acquire(b"").is_ok(), "harness: lock");
    let x = any_u8();
    for (i, s) in ss.iter().enumerate() {
        s.s.tx(END, 0, 2, &[x, i as u8]);
    }
    sim::run();
    check(dev::log_len() == 0, "a command is executed while another client holds the exclusive lock");
    other.force_release();
    sim::run();
    let got = dev::execs();
    check(got.len() == limit, "the device does not execute exactly the complete messages that were sent");
    for i in 0..limit {
        check(got.iter().filter(|g| g.len() == 2 && g[1] == i as u8).count() == 1, "a command is not executed exactly once");
    }
    // one goes, one comes
    let k = [0, limit / 2, limit - 1][choice(3)];
    let id = ss[k].id;
    let gone = ss.remove(k);
    gone.s.s.sim_close();
    gone.a.s.sim_close();
    sim::run();
    let c = Conn::open();
    c.tx(AINIT, 0, id as u32, b"");
    sim::run();
    expect_fatal(&c, 3, "the id of a session that is gone is still accepted");
    let s = session();
    check(ss.iter().all(|t| t.id != s.id), "two live sessions have the same id");
    ss.push(s);
    refused();
    cover(1);
    let l = ss.len();
    probe_sync(&ss[l - 1].s, "a live session is disturbed by other connections");
    probe_sync(&ss[0].s, "a live session is disturbed by other connections");
}

/// A connection that does not take what it is sent is nobody's problem but its own.
fn h_h10_slow() {
    let env = start(cfg().max_num_sessions(8));
    let other = env.other();
    dev::set_respond(|c| Some(c.to_vec()));
    let v = session();
    let w = session();
    let lock = choice(3);
    if lock > 0 {
        v.a.tx(LOCK, 1, 0, [&b"k"[..], b""][lock - 1]);
        sim::run();
        check(v.a.expect(LOCK_R, "AsyncLock is not answered").cc == 1, "a lock that is free is not granted");
    }
    // the slow one: a new connection, or an established session's channels
    let where_ = choice(4);
    let (c, keep) = match where_ {
        0 => (Conn::open(), None),
        1 => {
            let (c, _) = init_sync(0x0200);
            (c, None)
        }
        2 => {
            let s = session_v(0x0200);
            (s.s, Some(s.a))
        }
        _ => {
            let s = session_v(0x0200);
            (s.a, Some(s.s))
        }
    };
    c.s.sim_limit_peer_writes(choice(2), 3);
    let more = choice(2) == 1;
    if more {
        c.tx(200, 0, 0, b"");
        sim::run();
    }
    let mut fatal = false;
    let (ty, cc, p, pl): (u8, u8, u32, &[u8]) = match choice(11) {
        0 => (AINIT, 0, 0x4242, b""),
        1 => (AINIT, 0, v.id as u32, b""),
        2 => (INIT, 0, 0x0100_0000, b"?"),
        3 => (INIT, 0, 0x0100_0000, b""),
        4 => (128, 0, 0, b""),
        5 => (77, 0, 0, b""),
        6 => (CLR_DONE, 0, 0, b""),
        7 => (DATA, 0, 2, b"0123456789"),
        8 => (27, 0, 0, b""),
        9 => (END, 0, 2, b"own"),
        _ => (RL, 77, 0, b""),
    };
    if where_ == 2 && ty == END && lock > 0 {
        // waits for the lock
        prune()
    }
    if where_ == 0 && ty != 128 && ty != 77 && !(ty == DATA) {
        fatal = !(ty == INIT && pl.is_empty());
    }
    c.tx(ty, cc, p, pl);
    sim::run();
    dev::take_log();
    // the others, established and new
    if lock == 0 {
        probe_sync(&w.s, "a client that does not read keeps another one from working");
    }
    probe_sync(&v.s, "a client that does not read keeps another one from working");
    probe_async(&v.a, "a client that does not read keeps another one from working");
    let n = session();
    if lock == 0 {
        probe_sync(&n.s, "a client that does not read keeps another one from working");
    }
    probe_async(&n.a, "a client that does not read keeps another one from working");
    cover(1);
    // a session that is gone takes its locks with it
    v.s.s.sim_close();
    v.a.s.sim_close();
    sim::run();
    check(other.lock_info() == (false, 0), "a lock outlives its session while a client does not read");
    probe_sync(&n.s, "a client that does not read keeps another one from working");
    // the slow one reads at last
    c.s.sim_limit_peer_writes(usize::MAX, usize::MAX);
    let ms = all_msgs(&c);
    if fatal {
        cover(2);
        let l = ms.last();
        check(ms.len() == 1 + more as usize && l.map_or(false, |m| m.ty == FATAL && m.cc == 3), "a connection that is refused does not get the fatal error");
        check(c.closed(), "the connection stays open after a fatal error");
    } else {
        check(ms.len() >= more as usize, "a message is not answered");
    }
    c.s.sim_close();
    if let Some(k) = keep {
        k.s.sim_close();
    }
    sim::run();
    dev::take_log();
    probe_sync(&n.s, "a client that does not read keeps another one from working");
    // v is gone, w and n are left with two tasks each
    check(sim::tasks_alive() == 5, "a session that is gone is still being served");
}

/// A recording device that also notes which of the devices was called.
struct D(u8);
static WHICH: Global<Vec<u8>> = Global::new(Vec::new());
fn note_dev(i: u8) {
    WHICH.with(|w| w.push(i))
}
impl Device for D {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        note_dev(self.0);
        Dev.execute(cmd)
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        note_dev(self.0);
        Dev.get_status()
    }
    fn trigger(&mut self, s: Source) -> Result<(), DeviceError> {
        note_dev(self.0);
        Dev.trigger(s)
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        note_dev(self.0);
        Dev.clear()
    }
    fn set_remote(&mut self, r: bool) -> Result<(), DeviceError> {
        note_dev(self.0);
        Dev.set_remote(r)
    }
    fn set_local_lockout(&mut self, e: bool) {
        note_dev(self.0);
        Dev.set_local_lockout(e)
    }
}
/// Every way to build a server with several devices; each session works with its own.
fn h_h02_config() {
    const NAMES: [&str; 3] = ["hislip0", "inst", "h"];
    let devs: Vec<Arc<Mutex<D>>> = (0..3).map(|i| Arc::new(Mutex::new(D(i)))).collect();
    let locks: Vec<Arc<SpinMutex<SharedLock>>> = (0..3).map(|_| SharedLock::new()).collect();
    let mut others: Vec<LockHandle<D>> = (0..3).map(|i| LockHandle::new(locks[i].clone(), devs[i].clone())).collect();
    let order = [[0, 1, 2], [2, 1, 0], [1, 0, 2]][choice(3)];
    let limit = 300 + any_u8() as u64;
    let vid = any_u16();
    let config = || ServerConfig::default().vendor_id(vid).max_message_size(limit).max_num_sessions(3);
    let how = choice(5);
    let server = if how >= 3 {
        let mut m = HashMap::new();
        for i in order {
            m.insert(NAMES[i].to_string(), (locks[i].clone(), devs[i].clone()));
        }
        match how {
            3 => Server::new(m),
            _ => Server::with_config(config(), m),
        }
    } else {
        let mut b = match how {
            0 => ServerBuilder::new(config()),
            1 => ServerBuilder::default(),
            _ => ServerBuilder::new_with_device(config(), NAMES[order[0]].to_string(), devs[order[0]].clone(), locks[order[0]].clone()),
        };
        for i in if how == 2 { 1 } else { 0 }..3 {
            let i = order[i];
            b = b.device(NAMES[i].to_string(), devs[i].clone(), locks[i].clone());
        }
        b.build()
    };
    let srq = StatusSender::new();
    let mut sig = srq.clone();
    sim::spawn_any(async move {
        let _ = server.accept(("127.0.0.1", PORT), srq, Sp).await;
    });
    sim::run();
    dev::set_respond(|c| Some(c.to_vec()));
    // two sessions with two of the devices (or the same one)
    let ks = [choice(3), choice(3)];
    let mut ss: Vec<Session> = Vec::new();
    for i in 0..2 {
        let c = Conn::open();
        let name = if ks[i] == 0 && choice(2) == 1 { "" } else { NAMES[ks[i]] };
        c.tx(INIT, 0, 0x0100_0000, name.as_bytes());
        sim::run();
        let m = c.expect(INIT_R, "Initialize for a known device is not answered with InitializeResponse");
        let id = concrete((m.p & 0xffff) as u64) as u16;
        let a = Conn::open();
        a.tx(AINIT, 0, id as u32, b"");
        sim::run();
        let m = a.expect(AINIT_R, "AsyncInitialize for a live session is not answered with AsyncInitializeResponse");
        if how != 1 && how != 3 {
            check((m.p & 0xffff) as u16 == vid, "AsyncInitializeResponse does not carry the configured vendor id");
            a.tx(MAX, 0, 0, &1000u64.to_be_bytes());
            sim::run();
            let m = a.expect(MAX_R, "AsyncMaximumMessageSize is not answered");
            check_eq(&m.pl, &limit.to_be_bytes(), "AsyncMaximumMessageSizeResponse does not carry the server's limit");
        }
        ss.push(Session { s: c, a, id });
    }
    for round in 0..2 {
        let i = if round == 0 { choice(2) } else { 1 };
        let what = choice(6);
        WHICH.with(std::mem::take);
        dev::take_log();
        dev::set_stb(0x40);
        let n = match what {
            0 => {
                let d = [any_u8(), b'x'];
                ss[i].s.tx(END, 0, 2, &d);
                sim::run();
                let m = ss[i].s.expect(END, "a response is incomplete or missing");
                check_eq(&m.pl, &d, "a response is not what the device returned");
                1
            }
            1 => {
                ss[i].s.tx(TRIG, 0, 2, b"");
                sim::run();
                1
            }
            2 => {
                ss[i].a.tx(STB, 0, 2, b"");
                sim::run();
                let m = ss[i].a.expect(STB_R, "AsyncStatusQuery is not answered");
                check(m.cc & 0xef == 0x40, "a status query is not answered with the device's status");
                1
            }
            3 => {
                ss[i].a.tx(RL, 3, 2, b"");
                sim::run();
                ss[i].a.expect(RL_R, "AsyncRemoteLocalControl is not answered");
                1
            }
            4 => {
                ss[i].a.tx(ACLR, 0, 0, b"");
                sim::run();
                ss[i].a.expect(ACLR_R, "AsyncDeviceClear is not acknowledged");
                ss[i].s.tx(CLR_DONE, 0, 0, b"");
                sim::run();
                ss[i].s.expect(CLR_ACK, "DeviceClearComplete is not answered with one DeviceClearAcknowledge");
                1
            }
            _ => {
                ss[i].a.tx(LOCK, 1, 0, b"");
                sim::run();
                let m = ss[i].a.expect(LOCK_R, "AsyncLock is not answered");
                check(m.cc == 1, "a lock that is free is not granted");
                for k in 0..3 {
                    check(others[k].lock_info().0 == (k == ks[i]), "the session is connected to another device than the one named");
                    check(others[k].try_acquire(b"").is_ok() == (k != ks[i]), "the session is connected to another device than the one named");
                    others[k].force_release();
                }
                ss[i].a.tx(LOCK, 0, 2, b"");
                sim::run();
                ss[i].a.expect(LOCK_R, "AsyncLock is not answered");
                0
            }
        };
        cover(1);
        let w = WHICH.with(std::mem::take);
        check(w.len() >= n && w.iter().all(|d| *d as usize == ks[i]), "the session is connected to another device than the one named");
        check(dev::log_len() == w.len(), "harness: log");
    }
    sig.send_status(0x41);
    sim::run();
    for s in &ss {
        s.a.expect(SRQ, "a status change does not lead to exactly one service request");
    }
}

entries!(
    h_h02_config,
    h_h10_slow,
    h_h04_long, h_h01_size, h_h04_many, h_h05_many, h_h05_big, h_h06_many, h_h06_cycles, h_h08_many, h_h09_many, h_h03_many,
    h_h11_codes,
    h_h01_init, h_h01_sync, h_h01_async, h_h01_init2, h_h01_sync2, h_h01_async2, h_h01_init3, h_h01_async3, h_h01_cut, h_h01_accept, h_h03_memory, h_h02_init, h_h02_ids, h_h03_q,
    h_h03_t, h_h03_wrap, h_h04_q, h_h04_t, h_h04_idn, h_h05_q, h_h05_t, h_h05_long, h_h06_q, h_h06_t, h_h06_gone,
    h_h07_q, h_h07_t, h_h08_q, h_h08_2, h_h08_t, h_h09_q, h_h09_two, h_h09_t, h_h09_two_t, h_h10_q, h_h10_t
);
