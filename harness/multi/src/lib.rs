//! All servers at once on one device (property M01): HiSLIP, VXI-11, raw and
//! telnet clients share the device, its lock and its status.
use async_std::net::{TcpListener, TcpStream};
use async_std::sim::{self, LinkCtl};
use futures::future::FutureObj;
use futures::task::{Spawn, SpawnError};
use lxi_device::lock::{LockHandle, Mutex, SharedLock, SpinMutex};
use lxi_device::status::Sender as StatusSender;
use std::cell::Cell;
use std::sync::Arc;
use symrt::dev::{self, Dev};
use symrt::lockmodel::{Model, Why};
use symrt::*;

const HISLIP: u16 = 4880;
const CORE: u16 = 4400;
const ABORT: u16 = 4500;
const RAW: u16 = 5025;
const TELNET: u16 = 5024;

// clients, as numbered in the lock model
const H: usize = 0;
const V: usize = 1;
const R: usize = 2;
const T: usize = 3;

struct Sp;
impl Spawn for Sp {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        sim::spawn_any(f);
        Ok(())
    }
}
struct Env {
    dev: Arc<Mutex<Dev>>,
    lock: Arc<SpinMutex<SharedLock>>,
    srq: StatusSender,
}
fn start() -> Env {
    let dev = Arc::new(Mutex::new(Dev));
    let lock = SharedLock::new();
    let srq = StatusSender::new();
    let cfg = lxi_hislip::server::ServerConfig::default().max_num_sessions(3);
    let server = lxi_hislip::server::ServerBuilder::new(cfg)
        .device("hislip0".to_string(), dev.clone(), lock.clone())
        .build();
    let s = srq.clone();
    sim::spawn_any(async move {
        let _ = server.accept(("127.0.0.1", HISLIP), s, Sp).await;
    });
    let (core, abort) = lxi_vxi11::server::vxi11::prelude::VxiServerBuilder::new()
        .core_port(CORE)
        .async_port(ABORT)
        .device("inst0".to_string(), dev.clone(), lock.clone())
        .build(srq.clone());
    sim::spawn_any(async move {
        let l = TcpListener::bind(("127.0.0.1", CORE)).await.unwrap();
        let _ = core.serve(l).await;
    });
    sim::spawn_any(async move {
        let l = TcpListener::bind(("127.0.0.1", ABORT)).await.unwrap();
        let _ = abort.serve(l).await;
    });
    let raw = lxi_socket::server::ServerConfig::default().read_buffer(4).build();
    sim::spawn_any(raw.accept(("127.0.0.1", RAW), lock.clone(), dev.clone()));
    let tel = lxi_telnet::server::ServerConfig::default().read_buffer(4).build();
    sim::spawn_any(tel.accept(("127.0.0.1", TELNET), lock.clone(), dev.clone()));
    sim::run();
    Env { dev, lock, srq }
}
impl Env {
    fn locks(&self) -> (bool, u32) {
        LockHandle::new(self.lock.clone(), self.dev.clone()).lock_info()
    }
}

fn connect(port: u16) -> TcpStream {
    let c = sim::connect(port).unwrap();
    sim::run();
    c
}

// ---------------------------------------------------------------- HiSLIP ----
#[derive(Clone)]
struct Msg {
    ty: u8,
    cc: u8,
    p: u32,
    pl: Vec<u8>,
}
struct Hs {
    s: TcpStream,
    a: TcpStream,
}
fn tx(c: &TcpStream, ty: u8, cc: u8, p: u32, pl: &[u8]) {
    let mut v = vec![b'H', b'S', ty, cc];
    v.extend_from_slice(&p.to_be_bytes());
    v.extend_from_slice(&(pl.len() as u64).to_be_bytes());
    v.extend_from_slice(pl);
    c.sim_feed(&v)
}
fn msgs(c: &TcpStream) -> Vec<Msg> {
    let b = c.sim_take();
    let mut r = Vec::new();
    let mut i = 0;
    while b.len() - i >= 16 {
        let mut p = [0u8; 4];
        p.copy_from_slice(&b[i + 4..i + 8]);
        let mut l = [0u8; 8];
        l.copy_from_slice(&b[i + 8..i + 16]);
        let n = concrete(u64::from_be_bytes(l)) as usize;
        if b.len() - i - 16 < n {
            break;
        }
        r.push(Msg { ty: concrete(b[i + 2] as u64) as u8, cc: b[i + 3], p: u32::from_be_bytes(p), pl: b[i + 16..i + 16 + n].to_vec() });
        i += 16 + n;
    }
    check(i == b.len(), "the HiSLIP server sent an incomplete message");
    r
}
fn one(c: &TcpStream, ty: u8, what: &str) -> Msg {
    let mut m = msgs(c);
    check(m.len() == 1 && m[0].ty == ty, what);
    m.pop().unwrap_or(Msg { ty: 255, cc: 255, p: 0, pl: Vec::new() })
}
impl Hs {
    fn open() -> Hs {
        let s = connect(HISLIP);
        tx(&s, 0, 0, 0x0100_0000, b"");
        sim::run();
        let m = one(&s, 1, "a HiSLIP session cannot be opened");
        let a = connect(HISLIP);
        tx(&a, 17, 0, m.p & 0xffff, b"");
        sim::run();
        one(&a, 18, "a HiSLIP session cannot be opened");
        Hs { s, a }
    }
    fn ask(&self, ty: u8, cc: u8, p: u32, pl: &[u8], want: u8) -> Msg {
        tx(&self.a, ty, cc, p, pl);
        sim::run();
        one(&self.a, want, "a HiSLIP request on the asynchronous channel is not answered")
    }
}

// ---------------------------------------------------------------- VXI-11 ----
#[derive(Default)]
struct X(Vec<u8>);
impl X {
    fn u(mut self, v: u32) -> X {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    fn op(self, b: &[u8]) -> X {
        let mut s = self.u(b.len() as u32);
        s.0.extend_from_slice(b);
        while s.0.len() % 4 != 0 {
            s.0.push(0)
        }
        s
    }
}
fn x() -> X {
    X::default()
}
fn rd(b: &[u8], i: usize) -> u32 {
    if b.len() < i + 4 {
        fail("a VXI-11 reply is too short");
        return !0;
    }
    let mut w = [0u8; 4];
    w.copy_from_slice(&b[i..i + 4]);
    u32::from_be_bytes(w)
}
struct Vx {
    s: TcpStream,
    xid: Cell<u32>,
    lid: u32,
}
impl Vx {
    fn open() -> Vx {
        let mut v = Vx { s: connect(CORE), xid: Cell::new(1), lid: 0 };
        v.send(10, x().u(1).u(0).u(0).op(b"inst0"));
        sim::run();
        let r = v.reply("create_link is not answered");
        check(rd(&r, 0) == 0, "a VXI-11 link cannot be created");
        v.lid = rd(&r, 4);
        v
    }
    fn send(&self, proc: u32, a: X) {
        let xid = self.xid.get() + 1;
        self.xid.set(xid);
        let m = x().u(xid).u(0).u(2).u(0x0607AF).u(1).u(proc).u(0).u(0).u(0).u(0);
        let mut r = x().u(0x8000_0000 | (m.0.len() + a.0.len()) as u32);
        r.0.extend_from_slice(&m.0);
        r.0.extend_from_slice(&a.0);
        self.s.sim_feed(&r.0)
    }
    fn idle(&self) -> bool {
        self.s.sim_avail() == 0
    }
    /// The results of the one reply received, to the last call.
    fn reply(&self, what: &str) -> Vec<u8> {
        let b = self.s.sim_take();
        if b.len() < 28 {
            fail(what);
            return vec![255; 16];
        }
        let n = (rd(&b, 0) & 0x7fff_ffff) as usize;
        check(b.len() == n + 4 && rd(&b, 4) == self.xid.get() && rd(&b, 8) == 1 && rd(&b, 12) == 0 && rd(&b, 24) == 0, what);
        b[28..].to_vec()
    }
    fn call(&self, proc: u32, a: X, what: &str) -> u32 {
        self.send(proc, a);
        sim::run();
        concrete(rd(&self.reply(what), 0) as u64) as u32
    }
}

// ------------------------------------------------------------------ M01 ----
/// Who holds which locks, for the device's use.
static MODEL: Global<Option<Model>> = Global::new(None);
fn model<T>(f: impl FnOnce(&mut Model) -> T) -> T {
    MODEL.with(|m| f(m.as_mut().unwrap()))
}
/// Commands are two letters: the client's and a number.
fn owner(c: &[u8]) -> usize {
    match c.first() {
        Some(b'h') => H,
        Some(b'v') => V,
        Some(b'r') => R,
        _ => T,
    }
}
fn answers(c: &[u8]) -> Option<Vec<u8>> {
    let o = owner(c);
    check(model(|m| m.may_use(o)), "a command is executed although a client of another protocol holds a lock that excludes it");
    if c.len() == 2 && c[1] % 2 == 0 {
        return None;
    }
    Some([c, b"!"].concat())
}
fn response(c: &[u8]) -> Option<Vec<u8>> {
    if c[1] % 2 == 0 {
        None
    } else {
        Some([c, b"!"].concat())
    }
}
const PROMPT: &[u8] = b"SCPI> \xff\xf9";
const LOST: &str = "a command of one of several protocols is lost, repeated or delayed";
const MIXED: &str = "clients of different protocols do not each get exactly their own responses";

struct Run {
    env: Env,
    h: Hs,
    v: Vx,
    r: TcpStream,
    t: TcpStream,
    /// Commands that wait, per client.
    wait: [Vec<Vec<u8>>; 4],
    /// Commands executed, per client, whose responses were not yet looked at.
    done: [Vec<Vec<u8>>; 4],
    vpend: bool,
    n: u8,
    id: u32,
}
impl Run {
    fn new() -> Run {
        let env = start();
        MODEL.with(|m| *m = Some(Model::new(4)));
        let (h, v) = (Hs::open(), Vx::open());
        let (r, t) = (connect(RAW), connect(TELNET));
        check_eq(&t.sim_take(), PROMPT, MIXED);
        dev::set_respond(answers);
        Run { env, h, v, r, t, wait: Default::default(), done: Default::default(), vpend: false, n: 0, id: 2 }
    }
    fn cmd(&mut self, who: usize) -> Vec<u8> {
        let c = vec![b"hvrt"[who], b'0' + self.n];
        self.n += 1;
        self.wait[who].push(c.clone());
        c
    }
    /// After every event: what may run has run, what may not has not.
    fn settle(&mut self) {
        let log = dev::execs();
        dev::take_log();
        for c in &log {
            let o = owner(c);
            if self.wait[o].is_empty() {
                fail(LOST);
                return;
            }
            check_eq(c, &self.wait[o].remove(0), LOST);
            self.done[o].push(c.clone());
        }
        for o in 0..4 {
            if model(|m| m.may_use(o)) {
                check(self.wait[o].is_empty(), LOST);
            }
        }
        // responses
        let mut want = Vec::new();
        let mut tel = Vec::new();
        for c in std::mem::take(&mut self.done[R]) {
            if let Some(a) = response(&c) {
                want.extend_from_slice(&a);
                want.push(b'\n');
            }
        }
        check_eq(&self.r.sim_take(), &want, MIXED);
        for c in std::mem::take(&mut self.done[T]) {
            if let Some(a) = response(&c) {
                tel.extend_from_slice(&a);
                tel.extend_from_slice(b"\r\n");
            }
            tel.extend_from_slice(PROMPT);
        }
        check_eq(&self.t.sim_take(), &tel, MIXED);
        let mut got = msgs(&self.h.s).into_iter();
        for c in std::mem::take(&mut self.done[H]) {
            if let Some(a) = response(&c) {
                match got.next() {
                    Some(m) => {
                        check(m.ty == 7, MIXED);
                        check_eq(&m.pl, &a, MIXED)
                    }
                    None => fail(MIXED),
                }
            }
        }
        check(got.next().is_none(), MIXED);
        check(self.h.a.sim_avail() == 0, MIXED);
        if self.vpend && !self.v.idle() {
            self.vpend = false;
            let e = rd(&self.v.reply(LOST), 0);
            check(e == 0, "a VXI-11 write that waited for another protocol's lock fails");
            check(self.wait[V].is_empty(), LOST);
        }
        check(self.vpend || self.v.idle(), MIXED);
        check(self.vpend == !self.wait[V].is_empty(), LOST);
        for c in std::mem::take(&mut self.done[V]) {
            self.v.send(12, x().u(self.v.lid).u(100).u(10).u(0).u(0).u(0));
            let e = model(|m| m.may_use(V));
            sim::run();
            match (response(&c), e) {
                (Some(a), true) => {
                    let r = self.v.reply(MIXED);
                    check(rd(&r, 0) == 0, MIXED);
                    check(rd(&r, 8) == a.len() as u32 && r.len() >= 12 + a.len(), MIXED);
                    check_eq(&r[12..12 + a.len()], &a, MIXED);
                }
                (_, false) => {
                    check(rd(&self.v.reply(MIXED), 0) == 11, "a VXI-11 read is not refused although another protocol's client holds a lock")
                }
                (None, true) => {
                    self.v.s.sim_take();
                }
            }
        }
        let (ex, sh) = model(|m| (m.any_ex(), m.n_sh()));
        check(self.env.locks() == (ex, sh), "the locks are not those the clients of all protocols hold");
    }
    fn event(&mut self) {
        match choice(8) {
            0 => {
                let k: &[u8] = [&b""[..], b"a"][choice(2)];
                let w = model(|m| m.want(H, k));
                if w == Why::Already {
                    prune()
                }
                let r = self.h.ask(4, 1, 0, k, 5);
                if w == Why::Ok {
                    model(|m| m.grant(H, k));
                    cover(1);
                    check(r.cc == 1, "a HiSLIP client does not get a lock that is free");
                } else {
                    cover(2);
                    check(r.cc == 0, "a HiSLIP client gets a lock that a VXI-11 client holds");
                }
            }
            1 => {
                if !model(|m| m.holds(H)) {
                    prune()
                }
                model(|m| {
                    m.release(H);
                });
                let r = self.h.ask(4, 0, 0, b"", 5);
                check(r.cc == 1 || r.cc == 2, "a HiSLIP client cannot release its lock");
            }
            2 => {
                if self.vpend || model(|m| m.h[V].ex) {
                    prune()
                }
                let e = self.v.call(18, x().u(self.v.lid).u(0).u(0), "device_lock is not answered");
                if model(|m| m.want(V, b"")) == Why::Ok {
                    model(|m| m.grant(V, b""));
                    check(e == 0, "a VXI-11 client does not get a lock that is free");
                } else {
                    cover(3);
                    check(e == 11, "a VXI-11 client gets a lock that a HiSLIP client holds");
                }
            }
            3 => {
                if self.vpend || !model(|m| m.h[V].ex) {
                    prune()
                }
                model(|m| {
                    m.release(V);
                });
                let e = self.v.call(19, x().u(self.v.lid), "device_unlock is not answered");
                check(e == 0, "a VXI-11 client cannot release its lock");
            }
            4 => {
                if self.vpend {
                    prune()
                }
                let w = choice(2) == 1;
                let c = self.cmd(V);
                self.v.send(11, x().u(self.v.lid).u(10).u(1000).u(8 | w as u32).op(&c));
                self.vpend = true;
                sim::run();
                if !w && !model(|m| m.may_use(V)) {
                    self.vpend = false;
                    self.wait[V].clear();
                    check(rd(&self.v.reply(LOST), 0) == 11, "a VXI-11 write is not refused although a HiSLIP client holds a lock");
                }
            }
            5 => {
                let who = [H, R, T][choice(3)];
                let c = self.cmd(who);
                match who {
                    H => {
                        tx(&self.h.s, 7, 0, self.id, &c);
                        self.id += 2;
                    }
                    R => self.r.sim_feed(&[&c[..], b"\n"].concat()),
                    _ => self.t.sim_feed(&[&c[..], b"\r\n"].concat()),
                }
                if !model(|m| m.may_use(who)) {
                    cover(4)
                }
                sim::run();
            }
            6 => {
                // the HiSLIP client goes away, with whatever it had
                model(|m| {
                    m.release(H);
                });
                if !self.wait[H].is_empty() {
                    prune()
                }
                if choice(2) == 0 {
                    self.h.s.sim_close();
                    self.h.a.sim_close();
                } else {
                    self.h.a.sim_reset();
                    self.h.s.sim_reset();
                }
                sim::run();
                self.h = Hs::open();
            }
            _ => {
                if self.vpend {
                    prune()
                }
                model(|m| {
                    m.release(V);
                });
                if choice(2) == 0 {
                    self.v.s.sim_close();
                } else {
                    check(self.v.call(23, x().u(self.v.lid), "destroy_link is not answered") == 0, "a link cannot be destroyed");
                }
                sim::run();
                self.v = Vx::open();
            }
        }
        self.settle();
    }
}
fn m01(depth: usize) {
    let mut r = Run::new();
    for _ in 0..depth {
        r.event();
    }
    let i = r.h.ask(24, 0, 0, b"", 25);
    let (ex, sh) = model(|m| (m.any_ex(), m.n_sh()));
    check(i.cc == ex as u8, "the HiSLIP lock information does not show a VXI-11 client's lock");
    check(i.p == sh, "the HiSLIP lock information shows the wrong number of holders");
    // everybody lets go
    model(|m| {
        m.release(H);
        m.release(V);
    });
    r.h.ask(4, 0, 0, b"", 5);
    if r.vpend {
        r.settle();
    }
    r.v.call(19, x().u(r.v.lid), "device_unlock is not answered");
    r.settle();
    for o in 0..4 {
        check(r.wait[o].is_empty(), LOST);
    }
    obs(r.n as u64);
}
fn h_m01_q() {
    m01(5)
}
fn h_m01_t() {
    m01(6)
}

/// A status signalled by the device reaches the clients of every protocol.
static ACC: Global<Vec<TcpStream>> = Global::new(Vec::new());
fn srq(depth: usize) {
    let mut env = start();
    sim::spawn_any(async {
        let l = TcpListener::bind(("127.0.0.1", 9000)).await.unwrap();
        while let Ok((s, _)) = l.accept().await {
            ACC.with(|a| a.push(s));
        }
    });
    sim::run();
    MODEL.with(|m| *m = Some(Model::new(4)));
    let (mut h, mut v) = (Hs::open(), Vx::open());
    let (r, t) = (connect(RAW), connect(TELNET));
    t.sim_take();
    let mut out = false;
    let mut chan: Option<TcpStream> = None;
    for _ in 0..depth {
        match choice(5) {
            0 => {
                let s = any_u8();
                env.srq.send_status(s);
                sim::run();
                let m = msgs(&h.a);
                if out {
                    check(m.is_empty(), "a HiSLIP client gets a second service request");
                } else {
                    check(m.len() == 1 && m[0].ty == 20 && m[0].cc == s, "a HiSLIP client misses a service request");
                }
                out = true;
                match &chan {
                    Some(c) => {
                        let b = c.sim_take();
                        cover(1);
                        check(b.len() == 4 + 40 + 8, "a VXI-11 client misses a service request");
                        if b.len() == 52 {
                            check_eq(&b[44..52], &x().op(b"L").0, "a service request does not carry the link's handle");
                        }
                    }
                    None => cover(2),
                }
            }
            1 => {
                dev::set_stb(any_u8());
                h.ask(21, 0, 0, b"", 22);
                out = false;
            }
            2 => {
                h.a.sim_close();
                h.s.sim_close();
                sim::run();
                h = Hs::open();
                out = false;
            }
            3 => {
                if chan.is_some() {
                    prune()
                }
                check(v.call(25, x().u(0x7f00_0001).u(9000).u(7).u(1).u(0), "create_intr_chan is not answered") == 0, "no interrupt channel");
                check(v.call(20, x().u(v.lid).u(1).op(b"L"), "device_enable_srq is not answered") == 0, "service requests cannot be enabled");
                chan = ACC.with(|a| a.pop());
                check(chan.is_some(), "no interrupt channel");
            }
            _ => {
                v.s.sim_close();
                sim::run();
                v = Vx::open();
                chan = None;
            }
        }
        check(r.sim_avail() == 0 && t.sim_avail() == 0, "a status signal disturbs a raw or telnet client");
        check(h.s.sim_avail() == 0 && v.idle(), "a status signal disturbs another channel");
    }
    // everybody still works
    r.sim_feed(b"r1\n");
    t.sim_feed(b"t1\n");
    tx(&h.s, 7, 0, 2, b"h1");
    v.send(11, x().u(v.lid).u(10).u(0).u(8).op(b"v1"));
    sim::run();
    check(dev::execs().len() == 4, LOST);
}
fn h_m01_srq() {
    srq(5)
}
fn h_m01_srq_t() {
    srq(6)
}
/// Commands of all four at once, any order of the tasks, a lock taken and released.
fn race(n: u32) {
    let mut r = Run::new();
    // who holds the exclusive lock at first
    let who = [None, Some(H), Some(V)][choice(3)];
    match who {
        Some(H) => {
            check(r.h.ask(4, 1, 0, b"", 5).cc == 1, "no lock");
            model(|m| m.grant(H, b""));
        }
        Some(_) => {
            check(r.v.call(18, x().u(r.v.lid).u(0).u(0), "no lock") == 0, "no lock");
            model(|m| m.grant(V, b""));
        }
        None => {}
    }
    sim::set_sched_budget(n);
    let (a, b, c, d) = (r.cmd(H), r.cmd(V), r.cmd(R), r.cmd(T));
    tx(&r.h.s, 7, 0, 2, &a);
    r.v.send(11, x().u(r.v.lid).u(10).u(1000).u(9).op(&b));
    r.vpend = true;
    r.r.sim_feed(&[&c[..], b"\n"].concat());
    r.t.sim_feed(&[&d[..], b"\r\n"].concat());
    if choice(2) == 1 {
        sim::run();
        if who.is_none() {
            cover(1);
        } else {
            cover(2);
        }
    } else if who == Some(V) {
        // (VXI-11 calls of one connection are answered in order)
        sim::run();
    }
    match who {
        Some(H) => {
            tx(&r.h.a, 4, 0, 0, b"");
            // from here on the lock may go at any moment
            model(|m| {
                m.release(H);
            });
            sim::run();
            check(one(&r.h.a, 5, "a lock release is not answered").cc == 1, "a lock release is not answered");
        }
        Some(_) => {
            r.settle();
            model(|m| {
                m.release(V);
            });
            check(r.v.call(19, x().u(r.v.lid), "device_unlock is not answered") == 0, "a lock cannot be released");
        }
        None => sim::run(),
    }
    r.settle();
    cover(3);
}
fn h_m01_race() {
    race(5)
}
fn h_m01_race_t() {
    race(7)
}

/// A client that does not take its responses: the others work on.
fn h_m01_slow() {
    let mut r = Run::new();
    let who = choice(4);
    let s = match who {
        H => r.h.s.clone(),
        V => r.v.s.clone(),
        R => r.r.clone(),
        _ => r.t.clone(),
    };
    s.sim_limit_peer_writes(choice(2), 1 + choice(2));
    let n = 1 + choice(2);
    let mut want = Vec::new();
    for i in 0..n {
        let c = vec![b"hvrt"[who], b'1' + 2 * i as u8];
        match who {
            H => tx(&r.h.s, 7, 0, 2 + 2 * i as u32, &c),
            V => {
                r.v.send(11, x().u(r.v.lid).u(10).u(1000).u(9).op(&c));
                r.v.send(12, x().u(r.v.lid).u(100).u(10).u(0).u(0).u(0));
            }
            R => r.r.sim_feed(&[&c[..], b"\n"].concat()),
            _ => r.t.sim_feed(&[&c[..], b"\r\n"].concat()),
        }
        sim::run();
        want.push(c);
    }
    let first = dev::execs();
    check(!first.is_empty() && first[0] == want[0], LOST);
    dev::take_log();
    // everybody else, twice
    for k in 0..2u8 {
        for o in 0..4 {
            if o == who {
                continue;
            }
            let c = vec![b"hvrt"[o], b'5' + 2 * k];
            let a = response(&c).unwrap();
            match o {
                H => {
                    tx(&r.h.s, 7, 0, 2 + 2 * k as u32, &c);
                    sim::run();
                    check_eq(&one(&r.h.s, 7, "a client that does not read keeps a HiSLIP client from working").pl, &a, MIXED);
                    check(r.h.ask(21, 0, 0, b"", 22).ty == 22, LOST);
                }
                V => {
                    let e = r.v.call(11, x().u(r.v.lid).u(10).u(0).u(8).op(&c), "a client that does not read keeps a VXI-11 client from working");
                    check(e == 0, "a client that does not read keeps a VXI-11 client from working");
                    r.v.send(12, x().u(r.v.lid).u(100).u(10).u(0).u(0).u(0));
                    sim::run();
                    let b = r.v.reply(MIXED);
                    check(b.len() >= 12 + a.len(), MIXED);
                    check_eq(&b[12..12 + a.len()], &a, MIXED);
                }
                R => {
                    r.r.sim_feed(&[&c[..], b"\n"].concat());
                    sim::run();
                    check_eq(&r.r.sim_take(), &[&a[..], b"\n"].concat(), "a client that does not read keeps a raw client from working");
                }
                _ => {
                    r.t.sim_feed(&[&c[..], b"\r\n"].concat());
                    sim::run();
                    check_eq(&r.t.sim_take(), &[&a[..], b"\r\n", PROMPT].concat(), "a client that does not read keeps a telnet client from working");
                }
            }
            cover(1);
            let ex = dev::execs();
            check(ex.len() == 1 && ex[0] == c, LOST);
            dev::take_log();
        }
    }
    // locks can be taken and given back
    if who != H {
        check(r.h.ask(4, 1, 0, b"", 5).cc == 1, "a client that does not read holds a lock");
        check(r.h.ask(4, 0, 0, b"", 5).cc == 1, "a client that does not read holds a lock");
    }
    // it reads at last
    s.sim_limit_peer_writes(usize::MAX, usize::MAX);
    let mut got = Vec::new();
    loop {
        sim::run();
        let b = s.sim_take();
        if b.is_empty() {
            break;
        }
        got.extend_from_slice(&b);
    }
    let mut all = Vec::new();
    for (i, c) in want.iter().enumerate() {
        let a = response(c).unwrap();
        match who {
            H => {
                all.extend_from_slice(&[b'H', b'S', 7, 0, 0, 0, 0, 2 + 2 * i as u8, 0, 0, 0, 0, 0, 0, 0, 3]);
                all.extend_from_slice(&a);
            }
            V => {
                cover(2);
            }
            R => {
                all.extend_from_slice(&a);
                all.push(b'\n');
            }
            _ => {
                all.extend_from_slice(&a);
                all.extend_from_slice(b"\r\n");
                all.extend_from_slice(PROMPT);
            }
        }
    }
    if who == V {
        // n write replies (36 bytes) and n read replies (40 + 4)
        check(got.len() == n * (4 + 24 + 8 + 4 + 24 + 12 + 4), MIXED);
    } else {
        check_eq(&got, &all, MIXED);
    }
    check(dev::execs().len() == n - first.len(), LOST);
}
entries!(h_m01_slow, h_m01_q, h_m01_t, h_m01_srq, h_m01_srq_t, h_m01_race, h_m01_race_t);
