//! The VXI-11 servers, the port mapper and its client (crate lxi-vxi11):
//! properties V01-V10, P01 and P02. Servers and clients run unmodified on the
//! simulated network; the harness is the other end.
use async_std::net::{TcpListener, TcpStream, UdpSocket};
use async_std::sim::{self, LinkCtl};
use lxi_device::lock::{LockHandle, Mutex, MutexGuard, SharedLock, SpinMutex};
use lxi_device::status::Sender as StatusSender;
use lxi_device::trigger::Source;
use lxi_device::{Device, DeviceError};
use lxi_vxi11::client::portmapper::prelude::PortMapperClient;
use lxi_vxi11::server::portmapper::prelude::{Mapping, StaticPortMap};
use lxi_vxi11::server::vxi11::prelude::VxiServerBuilder;
use std::cell::Cell;
use std::io;
use std::net::{IpAddr, Ipv4Addr};
use std::sync::Arc;
use std::time::Duration;
use symrt::dev::{self, Dev, Ev};
use symrt::lockmodel::{Model, Why};
use symrt::*;

const CORE_PORT: u16 = 4400;
const ABORT_PORT: u16 = 4500;
const PMAP_PORT: u16 = 111;
const CORE: u32 = 0x0607AF;
const ASYNC: u32 = 0x0607B0;
const PMAP: u32 = 100000;
const MAX_RECV: u32 = 128 * 1024;

const CREATE_LINK: u32 = 10;
const WRITE: u32 = 11;
const READ: u32 = 12;
const STB: u32 = 13;
const TRIG: u32 = 14;
const CLEAR: u32 = 15;
const REMOTE: u32 = 16;
const LOCAL: u32 = 17;
const LOCK: u32 = 18;
const UNLOCK: u32 = 19;
const ENABLE_SRQ: u32 = 20;
const DOCMD: u32 = 22;
const DESTROY: u32 = 23;
const CREATE_INTR: u32 = 25;
const DESTROY_INTR: u32 = 26;

const WAIT: u32 = 1;
const END: u32 = 8;
const TERM: u32 = 0x80;

const E_OK: u32 = 0;
const E_LID: u32 = 4;
const E_CHAN: u32 = 6;
const E_UNSUP: u32 = 8;
const E_LOCKED: u32 = 11;
const E_NOLOCK: u32 = 12;
const E_ADDR: u32 = 21;
const E_ABORT: u32 = 23;
const E_CHAN_THERE: u32 = 29;

// ---------------------------------------------------------------- server ----

/// A recording device that also notes which of the devices was called.
struct D(u8);
static WHICH: Global<Vec<u8>> = Global::new(Vec::new());
fn note_dev(i: u8) {
    WHICH.with(|w| w.push(i))
}
fn take_which() -> Vec<u8> {
    WHICH.with(std::mem::take)
}
impl Device for D {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        note_dev(self.0);
        Dev.execute(cmd)
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        note_dev(self.0);
        Dev.get_status()
    }
    fn trigger(&mut self, s: Source) -> Result<(), DeviceError> {
        note_dev(self.0);
        Dev.trigger(s)
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        note_dev(self.0);
        Dev.clear()
    }
    fn set_remote(&mut self, r: bool) -> Result<(), DeviceError> {
        note_dev(self.0);
        Dev.set_remote(r)
    }
    fn set_local_lockout(&mut self, e: bool) {
        note_dev(self.0);
        Dev.set_local_lockout(e)
    }
}
struct Env {
    dev: [Arc<Mutex<D>>; 2],
    lock: [Arc<SpinMutex<SharedLock>>; 2],
    srq: StatusSender,
}
fn start() -> Env {
    let dev = [Arc::new(Mutex::new(D(0))), Arc::new(Mutex::new(D(1)))];
    let lock = [SharedLock::new(), SharedLock::new()];
    let srq = StatusSender::new();
    let (core, abort) = VxiServerBuilder::new()
        .core_port(CORE_PORT)
        .async_port(ABORT_PORT)
        .device("inst0".to_string(), dev[0].clone(), lock[0].clone())
        .device("inst1".to_string(), dev[1].clone(), lock[1].clone())
        .build(srq.clone());
    sim::spawn_any(async move {
        let l = TcpListener::bind(("127.0.0.1", CORE_PORT)).await.unwrap();
        let _ = core.serve(l).await;
    });
    sim::spawn_any(async move {
        let l = TcpListener::bind(("127.0.0.1", ABORT_PORT)).await.unwrap();
        let _ = abort.serve(l).await;
    });
    sim::run();
    Env { dev, lock, srq }
}
impl Env {
    /// Another user of a device, at the level of the lock.
    fn other(&self, i: usize) -> LockHandle<D> {
        LockHandle::new(self.lock[i].clone(), self.dev[i].clone())
    }
}

// ---------------------------------------------------------------- client ----

#[derive(Clone, Default)]
struct X(Vec<u8>);
impl X {
    fn u(mut self, v: u32) -> X {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    fn op(self, b: &[u8]) -> X {
        let mut s = self.u(b.len() as u32);
        s.0.extend_from_slice(b);
        while s.0.len() % 4 != 0 {
            s.0.push(0)
        }
        s
    }
    fn raw(mut self, b: &[u8]) -> X {
        self.0.extend_from_slice(b);
        self
    }
}
fn x() -> X {
    X::default()
}
fn rd(b: &[u8], i: usize) -> u32 {
    let mut w = [0u8; 4];
    w.copy_from_slice(&b[i..i + 4]);
    u32::from_be_bytes(w)
}
fn call_msg(xid: u32, prog: u32, vers: u32, proc: u32, args: &[u8]) -> Vec<u8> {
    x().u(xid).u(0).u(2).u(prog).u(vers).u(proc).u(0).u(0).u(0).u(0).raw(args).0
}
fn rec(b: &[u8]) -> Vec<u8> {
    x().u(0x8000_0000 | b.len() as u32).raw(b).0
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Stat {
    Ok,
    ProgUnavail,
    ProgMismatch(u32, u32),
    ProcUnavail,
    Garbage,
    SystemErr,
    RpcMismatch(u32, u32),
    Auth(u32),
}
struct Rep {
    xid: u32,
    stat: Stat,
    body: Vec<u8>,
}
const BADREP: &str = "the server sent something that is not a well-formed RPC reply";
fn parse_reply(b: &[u8]) -> Option<Rep> {
    if b.len() < 12 {
        fail(BADREP);
        return None;
    }
    let xid = rd(b, 0);
    check(rd(b, 4) == 1, BADREP);
    let (stat, at) = match concrete(rd(b, 8) as u64) {
        0 => {
            if b.len() < 24 {
                fail(BADREP);
                return None;
            }
            check(rd(b, 12) == 0 && rd(b, 16) == 0, BADREP);
            match concrete(rd(b, 20) as u64) {
                0 => (Stat::Ok, 24),
                1 => (Stat::ProgUnavail, 24),
                2 if b.len() >= 32 => (Stat::ProgMismatch(rd(b, 24), rd(b, 28)), 32),
                3 => (Stat::ProcUnavail, 24),
                4 => (Stat::Garbage, 24),
                5 => (Stat::SystemErr, 24),
                _ => {
                    fail(BADREP);
                    return None;
                }
            }
        }
        1 if b.len() >= 20 => match concrete(rd(b, 12) as u64) {
            0 if b.len() >= 24 => (Stat::RpcMismatch(rd(b, 16), rd(b, 20)), 24),
            1 => (Stat::Auth(rd(b, 16)), 20),
            _ => {
                fail(BADREP);
                return None;
            }
        },
        _ => {
            fail(BADREP);
            return None;
        }
    };
    if stat != Stat::Ok {
        check(b.len() == at, "a reply that is no success carries results");
    }
    Some(Rep { xid, stat, body: b[at..].to_vec() })
}
struct Conn {
    s: TcpStream,
    xid: Cell<u32>,
    prog: u32,
}
impl Conn {
    fn open(port: u16, prog: u32) -> Conn {
        Conn { s: sim::connect(port).unwrap(), xid: Cell::new(100), prog }
    }
    fn core() -> Conn {
        Conn::open(CORE_PORT, CORE)
    }
    fn abort() -> Conn {
        Conn::open(ABORT_PORT, ASYNC)
    }
    fn put(&self, b: &[u8]) {
        self.s.sim_feed(b)
    }
    /// Everything the server sent, as whole records.
    fn records(&self) -> Vec<Vec<u8>> {
        let b = self.s.sim_take();
        let mut r = Vec::new();
        let mut cur = Vec::new();
        let mut i = 0;
        while i < b.len() {
            if b.len() - i < 4 {
                fail("the server sent an incomplete record");
                return r;
            }
            let h = concrete(rd(&b, i) as u64) as u32;
            let n = (h & 0x7fff_ffff) as usize;
            i += 4;
            if b.len() - i < n {
                fail("the server sent an incomplete record");
                return r;
            }
            cur.extend_from_slice(&b[i..i + n]);
            i += n;
            if h >> 31 == 1 {
                r.push(std::mem::take(&mut cur));
            }
        }
        check(cur.is_empty(), "the server sent an incomplete record");
        r
    }
    fn replies(&self) -> Vec<Rep> {
        self.records().iter().filter_map(|b| parse_reply(b)).collect()
    }
    fn send(&self, proc: u32, args: X) -> u32 {
        let xid = self.xid.get() + 1;
        self.xid.set(xid);
        self.put(&rec(&call_msg(xid, self.prog, 1, proc, &args.0)));
        xid
    }
    /// The one reply, to the call sent last; its results.
    fn recv(&self, what: &str) -> Vec<u8> {
        let mut r = self.replies();
        if r.len() != 1 {
            fail(what);
            return vec![0; 64];
        }
        let r = r.pop().unwrap();
        check(r.xid == self.xid.get(), "a reply does not carry the transaction id of its call");
        check(r.stat == Stat::Ok, what);
        r.body
    }
    fn call(&self, proc: u32, args: X, what: &str) -> Vec<u8> {
        self.send(proc, args);
        sim::run();
        self.recv(what)
    }
    fn err_of(&self, b: Vec<u8>) -> u32 {
        if b.len() != 4 {
            fail("a reply does not have the results of its procedure");
            return !0;
        }
        concrete(rd(&b, 0) as u64) as u32
    }
    fn closed(&self) -> bool {
        self.s.sim_peer_closed()
    }
    fn idle(&self) -> bool {
        self.s.sim_avail() == 0
    }
    fn create(&self, name: &[u8], lock: bool, timeout: u32) -> (u32, u32) {
        let b = self.call(CREATE_LINK, a_create(name, lock, timeout), "create_link is not answered");
        create_resp(&b)
    }
    fn link(&self, i: usize) -> u32 {
        let (e, lid) = self.create(NAMES[i], false, 0);
        check(e == E_OK, "a link to an existing device cannot be created");
        lid
    }
    fn write(&self, lid: u32, flags: u32, data: &[u8]) -> (u32, u32) {
        let b = self.call(WRITE, a_write(lid, 0, flags, data), "device_write is not answered");
        write_resp(&b)
    }
    fn read(&self, lid: u32, n: u32, flags: u32, term: u32) -> (u32, u32, Vec<u8>) {
        let b = self.call(READ, a_read(lid, n, 0, flags, term), "device_read is not answered");
        read_resp(&b)
    }
    fn generic(&self, proc: u32, lid: u32, flags: u32) -> u32 {
        let b = self.call(proc, a_gen(lid, flags, 0), "a call is not answered");
        self.err_of(b)
    }
    fn stb(&self, lid: u32, flags: u32) -> (u32, u32) {
        let b = self.call(STB, a_gen(lid, flags, 0), "device_readstb is not answered");
        write_resp(&b)
    }
    fn lock(&self, lid: u32, flags: u32, timeout: u32) -> u32 {
        let b = self.call(LOCK, x().u(lid).u(flags).u(timeout), "device_lock is not answered");
        self.err_of(b)
    }
    fn with_lid(&self, proc: u32, lid: u32) -> u32 {
        let b = self.call(proc, x().u(lid), "a call is not answered");
        self.err_of(b)
    }
    fn unlock(&self, lid: u32) -> u32 {
        self.with_lid(UNLOCK, lid)
    }
    fn destroy(&self, lid: u32) -> u32 {
        self.with_lid(DESTROY, lid)
    }
    fn do_abort(&self, lid: u32) -> u32 {
        self.with_lid(1, lid)
    }
    fn enable(&self, lid: u32, on: bool, handle: &[u8]) -> u32 {
        let b = self.call(ENABLE_SRQ, x().u(lid).u(on as u32).op(handle), "device_enable_srq is not answered");
        self.err_of(b)
    }
    fn intr(&self, addr: u32, port: u16, prog: u32, vers: u32, udp: bool) -> u32 {
        let b = self.call(
            CREATE_INTR,
            x().u(addr).u(port as u32).u(prog).u(vers).u(udp as u32),
            "create_intr_chan is not answered",
        );
        self.err_of(b)
    }
    fn destroy_intr(&self) -> u32 {
        let b = self.call(DESTROY_INTR, x(), "destroy_intr_chan is not answered");
        self.err_of(b)
    }
    fn null_works(&self, what: &str) {
        self.s.sim_take();
        let b = self.call(0, x(), what);
        check(b.is_empty(), what);
    }
}
const NAMES: [&[u8]; 2] = [b"inst0", b"inst1"];
fn a_create(name: &[u8], lock: bool, timeout: u32) -> X {
    x().u(any_u32()).u(lock as u32).u(timeout).op(name)
}
fn a_write(lid: u32, lock_to: u32, flags: u32, data: &[u8]) -> X {
    x().u(lid).u(any_u32()).u(lock_to).u(flags).op(data)
}
fn a_read(lid: u32, n: u32, lock_to: u32, flags: u32, term: u32) -> X {
    x().u(lid).u(n).u(any_u32()).u(lock_to).u(flags).u(term)
}
fn a_gen(lid: u32, flags: u32, lock_to: u32) -> X {
    x().u(lid).u(flags).u(lock_to).u(any_u32())
}
const SHAPE: &str = "a reply does not have the results of its procedure";
fn create_resp(b: &[u8]) -> (u32, u32) {
    if b.len() != 16 {
        fail(SHAPE);
        return (!0, 0);
    }
    let e = concrete(rd(b, 0) as u64) as u32;
    if e == 0 {
        check(rd(b, 8) == ABORT_PORT as u32, "create_link does not return the port of the abort channel");
        check(rd(b, 12) == MAX_RECV, "create_link does not return the maximum receive size");
    }
    (e, concrete(rd(b, 4) as u64) as u32)
}
fn write_resp(b: &[u8]) -> (u32, u32) {
    if b.len() != 8 {
        fail(SHAPE);
        return (!0, 0);
    }
    (concrete(rd(b, 0) as u64) as u32, rd(b, 4))
}
fn read_resp(b: &[u8]) -> (u32, u32, Vec<u8>) {
    if b.len() < 12 {
        fail(SHAPE);
        return (!0, 0, Vec::new());
    }
    let n = concrete(rd(b, 8) as u64) as usize;
    if b.len() != 12 + (n + 3) / 4 * 4 {
        fail(SHAPE);
        return (!0, 0, Vec::new());
    }
    (concrete(rd(b, 0) as u64) as u32, rd(b, 4), b[12..12 + n].to_vec())
}
/// The device executed exactly these commands since the log was last taken.
fn expect_execs(want: &[Vec<u8>], what: &str) {
    let got = dev::execs();
    if got.len() != want.len() {
        fail(what);
        return;
    }
    for i in 0..want.len() {
        check_eq(&got[i], &want[i], what)
    }
    dev::take_log();
}
fn no_response(_c: &[u8]) -> Option<Vec<u8>> {
    None
}
/// Both devices are free: nobody holds a lock.
fn all_free(env: &Env, what: &str) {
    for i in 0..2 {
        check(env.other(i).lock_info() == (false, 0), what)
    }
}
/// A new client can create a link and have a command executed.
fn server_works(what: &str) {
    dev::take_log();
    dev::set_respond(|c| Some(c.to_vec()));
    let c = Conn::core();
    let lid = c.link(0);
    let (e, n) = c.write(lid, END, b"pr");
    check(e == E_OK && n == 2, what);
    expect_execs(&[b"pr".to_vec()], what);
    let (e, _, d) = c.read(lid, 10, 0, 0);
    check(e == E_OK && bytes_eq(&d, b"pr"), what);
    check(c.destroy(lid) == E_OK, what);
    c.s.sim_close();
    sim::run();
}

fn start_pmap(m: [Mapping; 3]) {
    let p = StaticPortMap::new(m);
    let q = p.clone();
    sim::spawn_any(async move {
        let l = TcpListener::bind(("127.0.0.1", PMAP_PORT)).await.unwrap();
        let _ = p.serve_tcp(l).await;
    });
    sim::spawn_any(async move {
        let s = UdpSocket::bind(("127.0.0.1", PMAP_PORT)).await.unwrap();
        let _ = q.serve_udp(s).await;
    });
    sim::run();
}
fn some_map() -> [Mapping; 3] {
    [Mapping::new(1, 2, 6, 30), Mapping::new(CORE, 1, 6, 4400), Mapping::new(CORE, 1, 17, 4401)]
}
/// One of the three services, with its program number and version.
fn service(k: usize) -> (Conn, u32) {
    match k {
        0 => (Conn::core(), 1),
        1 => (Conn::abort(), 1),
        _ => (Conn::open(PMAP_PORT, PMAP), 2),
    }
}
fn null_on(c: &Conn, k: usize, what: &str) {
    let xid = c.xid.get() + 1;
    c.xid.set(xid);
    c.s.sim_take();
    c.put(&rec(&call_msg(xid, c.prog, if k == 2 { 2 } else { 1 }, 0, &[])));
    sim::run();
    check(c.recv(what).is_empty(), what)
}

// ------------------------------------------------------------------ V01 ----

#[derive(Clone, Copy)]
struct Hdr {
    xid: u32,
    rv: u32,
    prog: u32,
    vers: u32,
    proc: u32,
    cred: u32,
    verf: u32,
}
fn any_hdr() -> Hdr {
    Hdr {
        xid: any_u32(),
        rv: any_u32(),
        prog: any_u32(),
        vers: any_u32(),
        proc: any_u32(),
        cred: any_u32(),
        verf: any_u32(),
    }
}
fn hdr_bytes(h: Hdr, cred: &[u8], verf: &[u8]) -> Vec<u8> {
    x().u(h.xid).u(0).u(h.rv).u(h.prog).u(h.vers).u(h.proc).u(h.cred).op(cred).u(h.verf).op(verf).0
}
/// What a call without arguments to service `k` is to be answered with.
fn want_stat(k: usize, h: Hdr, r: &Rep) -> bool {
    let (prog, vers, known, done): (u32, u32, &[u32], &[u32]) = match k {
        0 => (
            CORE,
            1,
            &[
                CREATE_LINK, WRITE, READ, STB, TRIG, CLEAR, REMOTE, LOCAL, LOCK, UNLOCK, ENABLE_SRQ, DOCMD, DESTROY,
                CREATE_INTR,
            ],
            &[DESTROY_INTR],
        ),
        1 => (ASYNC, 1, &[1], &[]),
        _ => (PMAP, 2, &[3], &[4]),
    };
    check(r.xid == h.xid, "a reply does not carry the transaction id of its call");
    if h.rv != 2 {
        cover(1);
        check(r.stat == Stat::RpcMismatch(2, 2), "a call with a wrong RPC version is not denied with the supported range");
    } else if h.cred != 0 || h.verf != 0 {
        cover(2);
        match r.stat {
            Stat::Auth(w) => check(w >= 1 && w <= 14, "unsupported credentials are denied without an authentication error"),
            _ => fail("a call with unsupported credentials or verifier is not denied with an authentication error"),
        }
    } else if h.prog != prog {
        check(r.stat == Stat::ProgUnavail, "a call of an unknown program is not answered with PROG_UNAVAIL");
    } else if h.vers != vers {
        check(
            r.stat == Stat::ProgMismatch(vers, vers),
            "a call of an unknown version is not answered with PROG_MISMATCH and the supported range",
        );
    } else if h.proc == 0 {
        cover(3);
        check(r.stat == Stat::Ok && r.body.is_empty(), "the null procedure does not succeed");
    } else {
        for p in known {
            if h.proc == *p {
                cover(4);
                check(r.stat == Stat::Garbage, "a call without its arguments is not answered with GARBAGE_ARGS");
                return true;
            }
        }
        for p in done {
            if h.proc == *p {
                check(r.stat == Stat::Ok, "a well-formed call does not succeed");
                return true;
            }
        }
        check(r.stat == Stat::ProcUnavail, "a call of an unknown procedure is not answered with PROC_UNAVAIL");
    }
    true
}
fn v01(auth: &[usize]) {
    let env = start();
    start_pmap(some_map());
    let k = choice(3);
    let (c, _) = service(k);
    let h = any_hdr();
    let b = any_vec(auth[choice(auth.len())]);
    let v = any_vec(auth[choice(auth.len())]);
    c.put(&rec(&hdr_bytes(h, &b, &v)));
    sim::run();
    let mut r = c.replies();
    if r.len() != 1 {
        fail("a well-formed call is not answered with exactly one reply");
        return;
    }
    want_stat(k, h, &r.pop().unwrap());
    check(dev::log_len() == 0, "a rejected call has an effect on the device");
    all_free(&env, "a rejected call locks the device");
    null_on(&c, k, "the connection does not work any more after a rejected call");
}
fn h_v01_q() {
    v01(&[0])
}
fn h_v01_auth() {
    v01(&[0, 4, 5])
}
/// Two calls sent together get two replies, in order.
fn h_v01_two() {
    let _env = start();
    start_pmap(some_map());
    let k = choice(3);
    let (c, vers) = service(k);
    let mut hs = Vec::new();
    let mut all = Vec::new();
    for _ in 0..2 {
        let h = match choice(4) {
            0 => Hdr { xid: any_u32(), rv: 2, prog: c.prog, vers, proc: 0, cred: 0, verf: 0 },
            1 => Hdr { xid: any_u32(), rv: 3, prog: c.prog, vers, proc: 0, cred: 0, verf: 0 },
            2 => Hdr { xid: any_u32(), rv: 2, prog: c.prog, vers, proc: [10, 1, 3][k], cred: 0, verf: 0 },
            _ => Hdr { xid: any_u32(), rv: 2, prog: c.prog, vers, proc: any_u32(), cred: any_u32(), verf: 0 },
        };
        hs.push(h);
        all.extend(rec(&hdr_bytes(h, b"", b"")));
    }
    let cut = [0, 3, 44, 45, 48, all.len()][choice(6)];
    c.put(&all[..cut]);
    sim::run();
    c.put(&all[cut..]);
    sim::run();
    let r = c.replies();
    if r.len() != 2 {
        fail("two calls are not answered with two replies");
        return;
    }
    for i in 0..2 {
        want_stat(k, hs[i], &r[i]);
    }
}
/// Arguments cut short anywhere are refused, have no effect, and the link lives on.
fn h_v01_args() {
    let mut env = start();
    dev::set_respond(no_response);
    let c = Conn::core();
    let lid = c.link(0);
    let pc = [CREATE_LINK, WRITE, READ, STB, TRIG, CLEAR, REMOTE, LOCAL, LOCK, UNLOCK, ENABLE_SRQ, DOCMD, DESTROY, CREATE_INTR]
        [choice(14)];
    let args = match pc {
        CREATE_LINK => a_create(NAMES[0], true, 0),
        WRITE => a_write(lid, 0, END, &any_vec(3)),
        READ => a_read(lid, 10, 0, 0, 0),
        LOCK => x().u(lid).u(0).u(0),
        UNLOCK | DESTROY => x().u(lid),
        ENABLE_SRQ => x().u(lid).u(1).op(&any_vec(4)),
        DOCMD => a_gen(lid, 0, 0).u(1).u(0).u(1).op(b"x"),
        CREATE_INTR => x().u(0x7f000001).u(9000).u(1).u(1).u(0),
        _ => a_gen(lid, 0, 0),
    };
    let cut = choice(args.0.len());
    c.send(pc, X(args.0[..cut].to_vec()));
    sim::run();
    let r = c.replies();
    check(
        r.len() == 1 && r[0].xid == c.xid.get() && r[0].stat == Stat::Garbage,
        "arguments that are cut short are not answered with GARBAGE_ARGS",
    );
    cover(1);
    check(dev::log_len() == 0, "a call with incomplete arguments has an effect on the device");
    all_free(&env, "a call with incomplete arguments locks the device");
    env.srq.send_status(1);
    sim::run();
    let (e, n) = c.write(lid, END, b"z");
    check(e == E_OK && n == 1, "the link does not work any more after a call with incomplete arguments");
    expect_execs(&[b"z".to_vec()], "a call with incomplete arguments leaves data behind");
}

// ------------------------------------------------------------------ V02 ----

fn h_v02_frag() {
    let _env = start();
    dev::set_respond(no_response);
    // the client may take what the server sends in small pieces
    sim::set_max_write([usize::MAX, 3][choice(2)]);
    let c = Conn::core();
    let lid = c.link(0);
    let data = any_vec(3);
    let msg = call_msg(7, CORE, 1, WRITE, &a_write(lid, 0, END, &data).0);
    // fragments: one, or two of which either may be empty
    let mut all = Vec::new();
    let k = choice(msg.len() + 2);
    if k > msg.len() {
        all.extend(rec(&msg));
    } else {
        all.extend(x().u(k as u32).raw(&msg[..k]).0);
        if choice(2) == 1 {
            all.extend(x().u(0).0);
        }
        all.extend(rec(&msg[k..]));
    }
    all.extend(rec(&call_msg(8, CORE, 1, 0, &[])));
    match choice(3) {
        0 => {
            c.put(&all);
            sim::run();
        }
        1 => {
            cover(2);
            for b in all {
                c.put(&[b]);
                sim::run();
            }
        }
        _ => {
            // the header of the second fragment arrives in two parts
            let cut = if k <= msg.len() { 4 + k + 2 } else { 6 };
            c.put(&all[..cut]);
            sim::run();
            c.put(&all[cut..]);
            sim::run();
        }
    }
    cover(1);
    expect_execs(&[data], "a call means something else when it is split into fragments or segments");
    let r = c.replies();
    check(
        r.len() == 2 && r[0].xid == 7 && r[0].stat == Stat::Ok && r[1].xid == 8 && r[1].stat == Stat::Ok,
        "calls split into fragments or segments are not answered one by one",
    );
    if r.len() == 2 {
        let (e, n) = write_resp(&r[0].body);
        check(e == E_OK && n == 3, "a call split into fragments or segments is not answered as usual");
    }
}
/// A stream that ends inside a record.
fn h_v02_cut() {
    let env = start();
    dev::set_respond(no_response);
    let c = Conn::core();
    let lid = c.link(0);
    let msg = match choice(3) {
        0 => call_msg(7, CORE, 1, WRITE, &a_write(lid, 0, END, &any_vec(4)).0),
        1 => call_msg(7, CORE, 1, TRIG, &a_gen(lid, 0, 0).0),
        _ => call_msg(7, CORE, 1, LOCK, &x().u(lid).u(0).u(0).0),
    };
    let mut all = Vec::new();
    if choice(2) == 1 {
        all.extend(x().u(42).raw(&msg[..42]).0);
        all.extend(rec(&msg[42..]));
    } else {
        all.extend(rec(&msg));
    }
    let cut = choice(all.len());
    c.put(&all[..cut]);
    if choice(2) == 1 {
        sim::run();
    }
    if choice(2) == 1 {
        c.s.sim_close_write();
    } else {
        c.s.sim_close();
    }
    sim::run();
    cover(1);
    check(dev::log_len() == 0, "a call that is cut short by the end of the stream has an effect on the device");
    check(c.records().is_empty(), "a call that is cut short by the end of the stream is answered");
    all_free(&env, "a connection that has ended keeps its lock");
    server_works("other connections are affected by a call that is cut short");
}
/// Any fragment length in front of a call.
fn h_v02_len() {
    let _env = start();
    dev::set_respond(no_response);
    let c = Conn::core();
    let lid = c.link(0);
    let msg = call_msg(7, CORE, 1, WRITE, &x().u(lid).u(0).u(0).u(END).op(b"abcd").0);
    let last = choice(2) == 1;
    let n = choice(msg.len() + 6);
    let len = if n < msg.len() + 2 {
        n as u32
    } else if n == msg.len() + 2 {
        let l = any_u32();
        assume(l < 0x8000_0000 && l > 1024 * 1024);
        l
    } else {
        [100, 4096, 1024 * 1024][n - msg.len() - 3]
    };
    c.put(&x().u(len | (last as u32) << 31).raw(&msg).0);
    sim::run();
    let whole = len == msg.len() as u32;
    if len > 1024 * 1024 {
        cover(1);
        check(c.closed(), "a record above the size limit is accepted");
    }
    if whole && last {
        cover(2);
        expect_execs(&[b"abcd".to_vec()], "a complete record is not executed");
    } else {
        check(dev::log_len() == 0, "a record of the wrong length is executed");
    }
    c.s.sim_close_write();
    sim::run();
    check(dev::log_len() == 0, "a record that never completes is executed");
    c.replies();
    server_works("other connections are affected by a record of the wrong length");
}
/// Records that exceed the limit only in sum.
fn h_v02_sum() {
    let _env = start();
    let c = Conn::core();
    let n = 4 + choice(3) as u32;
    c.put(&x().u(n).raw(&any_vec(n as usize)).0);
    sim::run();
    let l = any_u32();
    assume(l < 0x8000_0000 && l > 1024 * 1024 - n);
    c.put(&x().u(l | 0x8000_0000).0);
    sim::run();
    check(c.closed(), "a record above the size limit is accepted when it comes in fragments");
    server_works("other connections are affected by a record above the size limit");
}
/// Data that claims any length, with 0 to 8 bytes present.
fn h_v02_opaque() {
    let env = start();
    dev::set_respond(no_response);
    let c = Conn::core();
    let lid = c.link(0);
    let m = choice(9);
    let data = any_vec(m);
    let n = choice(11);
    let claim = if n < 10 {
        n as u32
    } else {
        let v = any_u32();
        assume(v >= 10);
        v
    };
    let fits = n < 10 && (n + 3) / 4 * 4 <= m;
    match choice(3) {
        0 => {
            c.send(WRITE, x().u(lid).u(0).u(0).u(END).u(claim).raw(&data));
            sim::run();
            let r = c.replies();
            if fits {
                cover(1);
                expect_execs(&[data[..n].to_vec()], "the data of a write is not executed intact");
                check(r.len() == 1 && r[0].stat == Stat::Ok, "a write is not answered");
            } else {
                cover(2);
                check(dev::log_len() == 0, "a write whose data is incomplete is executed");
                check(r.len() == 1 && r[0].stat == Stat::Garbage, "a write whose data is incomplete is not answered with GARBAGE_ARGS");
                let (e, _) = c.write(lid, END, b"z");
                check(e == E_OK, "the link does not work any more after incomplete data");
                expect_execs(&[b"z".to_vec()], "incomplete data is left behind");
            }
        }
        1 => {
            // a device name that is none, with a lock that must not be taken
            let cc = Conn::core();
            if m > 0 {
                // (no UTF-8)
                assume(data[0] & 0xc0 == 0x80);
            }
            cc.send(CREATE_LINK, x().u(1).u(1).u(0).u(claim).raw(&data));
            sim::run();
            let r = cc.replies();
            check(
                r.len() == 1 && (r[0].stat == Stat::Garbage || r[0].stat == Stat::Ok && n == 0 && create_resp(&r[0].body).0 == E_ADDR),
                "create_link with an incomplete or unknown device name is not refused",
            );
            all_free(&env, "create_link with an incomplete or unknown device name takes a lock");
        }
        _ => {
            let valid = [b"inst0".as_slice(), b"inst"][choice(2)];
            let cc = Conn::core();
            cc.send(CREATE_LINK, x().u(1).u(1).u(0).u(claim).raw(valid).raw(&[0, 0, 0]));
            sim::run();
            let r = cc.replies();
            let exact = n == 5 && valid.len() == 5;
            if exact {
                check(r.len() == 1 && r[0].stat == Stat::Ok && create_resp(&r[0].body).0 == E_OK, "a link cannot be created");
            } else {
                check(
                    r.len() == 1 && (r[0].stat == Stat::Garbage || r[0].stat == Stat::Ok && create_resp(&r[0].body).0 == E_ADDR),
                    "create_link with an incomplete or unknown device name is not refused",
                );
                all_free(&env, "create_link with an incomplete or unknown device name takes a lock");
            }
        }
    }
}
/// Any record of up to 44 bytes.
fn v02_bytes(lens: &[usize]) {
    let env = start();
    start_pmap(some_map());
    let k = choice(3);
    let (c, _) = service(k);
    let n = lens[choice(lens.len())];
    let b = any_vec(n);
    c.put(&rec(&b));
    sim::run();
    let r = c.replies();
    check(r.len() <= 1, "one record is answered more than once");
    if r.len() == 1 {
        cover(1);
        check(r[0].xid == rd(&b, 0), "a reply does not carry the transaction id of its call");
        null_on(&c, k, "the connection does not work any more after an answered record");
    } else {
        cover(2);
    }
    check(dev::log_len() == 0, "a nonsensical record has an effect on the device");
    all_free(&env, "a nonsensical record locks the device");
    let (d, _) = service(k);
    null_on(&d, k, "other connections are affected by a nonsensical record");
}
fn h_v02_bytes() {
    v02_bytes(&[0, 3, 4, 8, 11, 12, 28, 31, 32, 36, 40])
}
fn h_v02_bytes_t() {
    v02_bytes(&[0, 1, 3, 4, 7, 8, 11, 12, 16, 20, 24, 28, 31, 32, 33, 36, 40, 41, 44])
}
/// Connections that are lost before they are accepted.
fn h_v02_accept() {
    let _env = start();
    start_pmap(some_map());
    let k = choice(3);
    let port = [CORE_PORT, ABORT_PORT, PMAP_PORT][k];
    match choice(2) {
        0 => {
            let c = sim::connect(port).unwrap();
            c.sim_reset();
        }
        _ => {
            sim::fail_accept(port, [io::ErrorKind::ConnectionAborted, io::ErrorKind::Other][choice(2)]);
        }
    }
    if choice(2) == 1 {
        sim::run();
    }
    let (d, _) = service(k);
    sim::run();
    while sim::fire_timer() {
        sim::run();
    }
    null_on(&d, k, "the server does not accept connections any more after one was lost");
}

/// However many clients there are, each gets its turn when others have left, and
/// connections leave nothing behind.
fn h_v02_turns() {
    let _env = start();
    start_pmap(some_map());
    let k = choice(3);
    let how = choice(4);
    let end = |c: &Conn| {
        match how {
            0 => c.s.sim_close_write(),
            1 => c.s.sim_reset(),
            2 => {
                // a record that will never be complete
                c.put(&[0x80, 0, 0, 40, 1, 2, 3]);
                sim::run();
                c.s.sim_close()
            }
            _ => {
                // a reply that cannot be sent
                c.s.sim_fail_peer_writes(io::ErrorKind::BrokenPipe);
                c.put(&rec(&call_msg(9, c.prog, 1, 0, &[])));
                sim::run();
                c.s.sim_close()
            }
        }
        sim::run()
    };
    let mut waiting: Vec<Conn> = (0..25).map(|_| service(k).0).collect();
    for c in &waiting {
        c.put(&rec(&call_msg(7, c.prog, if k == 2 { 2 } else { 1 }, 0, &[])));
    }
    sim::run();
    while !waiting.is_empty() {
        let i = match waiting.iter().position(|c| !c.idle()) {
            Some(i) => i,
            None => {
                fail("a client is not served although others have left");
                return;
            }
        };
        let c = waiting.remove(i);
        let r = c.replies();
        check(r.len() == 1 && r[0].xid == 7 && r[0].stat == Stat::Ok, "a client is not served properly when others have left");
        end(&c);
    }
    cover(1);
    let mut at = 0;
    for i in 0..9 {
        let (c, _) = service(k);
        sim::run();
        null_on(&c, k, "a client is not served although others have left");
        end(&c);
        drop(c);
        let h = heap_live();
        if i == 3 {
            at = h;
        }
        if i > 3 {
            check(h <= at, "memory grows with every connection that has ended");
        }
    }
}

// ------------------------------------------------------------------ V03 ----

#[derive(Clone)]
struct L {
    lid: u32,
    conn: usize,
    dev: usize,
    alive: bool,
    lock: bool,
}
fn v03(depth: usize) {
    let env = start();
    dev::set_respond(no_response);
    let ac = Conn::abort();
    let mut cs = vec![Conn::core(), Conn::core()];
    let mut ls: Vec<L> = Vec::new();
    let held = |ls: &Vec<L>, d: usize| ls.iter().any(|l| l.alive && l.dev == d && l.lock);
    for _ in 0..depth {
        match choice(4) {
            0 => {
                let c = choice(2);
                let (d, lock) = [(0, false), (0, true), (1, true)][choice(3)];
                let (e, lid) = cs[c].create(NAMES[d], lock, 0);
                if lock && held(&ls, d) {
                    cover(4);
                    check(e == E_LOCKED, "a link whose lock cannot be obtained is not refused with the locked-by-another-link error");
                } else {
                    check(e == E_OK, "a link to an existing device cannot be created");
                    for l in &ls {
                        check(!l.alive || l.lid != lid, "two live links have the same id");
                    }
                    cover(1);
                    ls.push(L { lid, conn: c, dev: d, alive: true, lock });
                }
            }
            1 => {
                let c = choice(2);
                let (e, _) = cs[c].create([b"inst2".as_slice(), b"inst", b"", b"INST0"][choice(4)], any_bool(), 0);
                check(e == E_ADDR, "a link to an unknown device is not refused with the invalid-address error");
            }
            2 => {
                let c = choice(2);
                if ls.is_empty() {
                    prune()
                }
                let i = choice(ls.len());
                let e = cs[c].destroy(ls[i].lid);
                if ls[i].alive && ls[i].conn == c {
                    cover(2);
                    check(e == E_OK, "a live link cannot be destroyed");
                    ls[i].alive = false;
                    ls[i].lock = false;
                } else {
                    cover(3);
                    check(e == E_LID, "destroying something that is not a live link of the connection is not refused with the invalid-link error");
                }
            }
            _ => {
                let c = choice(2);
                match choice(3) {
                    0 => cs[c].s.sim_close(),
                    1 => cs[c].s.sim_reset(),
                    _ => cs[c].s.sim_close_write(),
                }
                sim::run();
                for l in ls.iter_mut() {
                    if l.conn == c {
                        l.alive = false;
                        l.lock = false;
                    }
                }
                cs[c] = Conn::core();
                sim::run();
            }
        }
        check(dev::log_len() == 0, "managing links has an effect on the device");
        for d in 0..2 {
            check(env.other(d).lock_info() == (held(&ls, d), 0), "the lock of a device is not what creating and destroying links leads to");
        }
    }
    // every id on both connections
    for l in &ls {
        for c in 0..2 {
            dev::take_log();
            take_which();
            let (e, n) = cs[c].write(l.lid, END, b"q");
            if l.alive && l.conn == c {
                let may = l.lock || !held(&ls, l.dev);
                if may {
                    check(e == E_OK && n == 1, "a live link does not work");
                    expect_execs(&[b"q".to_vec()], "a live link does not work");
                    check(take_which() == vec![l.dev as u8], "a link reaches another device than the one it was created for");
                } else {
                    check(e == E_LOCKED, "a locked device is not reported as locked");
                    check(dev::log_len() == 0, "a refused operation has an effect");
                }
            } else {
                check(e == E_LID, "an operation on something that is not a live link of the connection is not refused with the invalid-link error");
                check(dev::log_len() == 0, "an operation on something that is not a live link of the connection has an effect");
            }
        }
        let e = ac.do_abort(l.lid);
        check(e == if l.alive { E_OK } else { E_LID }, "the abort channel knows other links than the live ones");
    }
}
fn h_v03_q() {
    v03(3)
}
fn h_v03_t() {
    v03(4)
}
/// A requested lock that cannot be obtained.
fn h_v03_lock() {
    let env = start();
    dev::set_respond(no_response);
    let ac = Conn::abort();
    let c = Conn::core();
    let mut o = env.other(0);
    let key: &[u8] = [&b""[..], b"a"][choice(2)];
    let _ = o.try_acquire(key);
    let t = any_wait();
    c.send(CREATE_LINK, a_create(NAMES[0], true, t));
    sim::run();
    check(c.idle(), "create_link is answered before the lock is obtained and before the timeout");
    let ts = sim::timer_durs();
    check(ts.len() == 1 && ts[0] == Duration::from_millis(t as u64), "create_link does not wait for the lock timeout");
    // others are not affected meanwhile
    let d = Conn::core();
    let l1 = d.link(1);
    check(d.destroy(l1) == E_OK, "another client cannot work while one waits for a lock");
    if choice(2) == 0 {
        cover(1);
        sim::fire_timer();
        sim::run();
        let (e, lid) = create_resp(&c.recv("create_link is not answered when its lock timeout is over"));
        check(e == E_LOCKED, "a link whose lock cannot be obtained is not refused with the locked-by-another-link error");
        check(env.other(0).lock_info() == (key.is_empty(), !key.is_empty() as u32), "a refused create_link changes the locks");
        // no link is left behind, under whatever id
        for i in 0..6u32 {
            let (e, _) = c.write(i, END, b"q");
            check(e == E_LID, "a refused create_link leaves a link behind");
            check(ac.do_abort(i) == E_LID, "a refused create_link leaves a link behind");
        }
        let (e, _) = c.write(lid, END, b"q");
        check(e == E_LID, "a refused create_link leaves a link behind");
        drop(o);
        all_free(&env, "a refused create_link obtains the lock later");
    } else {
        cover(2);
        let _ = o.try_release();
        sim::run();
        let (e, lid) = create_resp(&c.recv("create_link is not answered when the lock becomes free"));
        check(e == E_OK, "create_link fails although the lock becomes free in time");
        check(env.other(0).lock_info() == (true, 0), "create_link does not take the lock it was asked for");
        let (e, _) = c.write(lid, END, b"q");
        check(e == E_OK, "a link that holds the lock cannot use the device");
    }
}
/// Every procedure with an id that is not a live link of the connection.
fn h_v03_ops() {
    let mut env = start();
    let c = Conn::core();
    let d = Conn::core();
    let mine = c.link(0);
    let theirs = d.link(0);
    let gone = c.link(0);
    check(c.destroy(gone) == E_OK, "a live link cannot be destroyed");
    let lid = [0, theirs, gone, 1000, u32::MAX][choice(5)];
    let flags = [0, WAIT, END, WAIT | END][choice(4)];
    let e = match choice(13) {
        0 => c.write(lid, flags, b"q").0,
        1 => {
            let (e, _, d) = c.read(lid, 100, flags, 0);
            check(d.is_empty(), "a read on an invalid link returns data");
            e
        }
        2 => c.stb(lid, flags).0,
        3 => c.generic(TRIG, lid, flags),
        4 => c.generic(CLEAR, lid, flags),
        5 => c.generic(REMOTE, lid, flags),
        6 => c.generic(LOCAL, lid, flags),
        7 => c.lock(lid, flags, 0),
        8 => c.unlock(lid),
        9 => c.enable(lid, true, b"h"),
        10 => c.enable(lid, false, b""),
        11 => c.destroy(lid),
        _ => {
            if lid == theirs {
                prune()
            }
            let ac = Conn::abort();
            ac.do_abort(lid)
        }
    };
    check(e == E_LID, "an operation on something that is not a live link of the connection is not refused with the invalid-link error");
    check(dev::log_len() == 0, "an operation on an invalid link has an effect on the device");
    all_free(&env, "an operation on an invalid link has an effect on the locks");
    env.srq.send_status(0x40);
    sim::run();
    check(d.idle() && c.idle(), "an operation on an invalid link has an effect");
    for (c, l) in [(&c, mine), (&d, theirs)] {
        let (e, _) = c.write(l, END, b"z");
        check(e == E_OK, "an operation on an invalid link affects a live link");
        expect_execs(&[b"z".to_vec()], "an operation on an invalid link affects a live link");
    }
}

/// Links leave nothing behind, however they end and whatever they were doing.
fn h_v03_memory() {
    let mut env = start();
    acceptor(9000);
    let what = choice(6);
    let how = choice(4);
    let mut o = env.other(0);
    let mut at = 0;
    for i in 0..10 {
        let c = Conn::core();
        let lid = c.link(0);
        match what {
            0 => {}
            1 => {
                // half a command, an unread response
                check(c.write(lid, END, b"q").0 == E_OK, "a write fails");
                check(c.write(lid, 0, b"abcd").0 == E_OK, "a write fails");
            }
            2 => check(c.lock(lid, 0, 0) == E_OK, "a free lock is not granted"),
            3 => {
                check(c.intr(0x7f00_0001, 9000, 1, 1, false) == E_OK, "an interrupt channel cannot be created");
                check(c.enable(lid, true, b"h") == E_OK, "service requests cannot be enabled");
                env.srq.send_status(1);
                sim::run();
            }
            4 => {
                // waits for a lock, with a call queued behind
                check(o.try_acquire(b"").is_ok(), "harness: lock");
                c.send(LOCK, x().u(lid).u(1).u(100000));
                c.send(WRITE, a_write(lid, 0, END, b"x"));
                sim::run();
            }
            _ => {
                // links that could not be created
                check(o.try_acquire(b"").is_ok(), "harness: lock");
                check(c.create(NAMES[0], true, 0).0 == E_LOCKED, "a link is created although its lock is not available");
                check(c.create(b"nosuch", false, 0).0 == E_ADDR, "a link to an unknown device is created");
            }
        }
        match how {
            0 if what != 4 => {
                check(c.destroy(lid) == E_OK, "a live link cannot be destroyed");
                c.s.sim_close()
            }
            0 | 1 => c.s.sim_close(),
            2 => c.s.sim_close_write(),
            _ => c.s.sim_reset(),
        }
        sim::run();
        o.force_release();
        sim::run();
        while sim::fire_timer() {
            sim::run();
        }
        check(o.lock_info() == (false, 0), "a lock is left behind by a link that is gone");
        drop(c);
        take_streams();
        dev::take_log();
        take_which();
        sim::run();
        let h = heap_live();
        if i == 4 {
            at = h;
        }
        if i > 4 {
            check(h <= at, "memory grows with every link that is gone");
        }
    }
    cover(1);
}

// ------------------------------------------------------------------ V04 ----

fn v04(depth: usize) {
    let env = start();
    dev::set_respond(no_response);
    let c = Conn::core();
    let d = Conn::core();
    let same = choice(2) == 1;
    let second = if same { &c } else { &d };
    let ls = [(&c, c.link(0)), (second, second.link(0))];
    let mut o = env.other(0);
    let mut acc: [Vec<u8>; 2] = [Vec::new(), Vec::new()];
    for _ in 0..depth {
        dev::take_log();
        let i = choice(2);
        let data = any_vec(choice(3));
        let end = choice(2) == 1;
        // the other flag bits do not matter, except to wait for a lock
        let mut flags = any_u32();
        assume(flags & (WAIT | END) == 0);
        if end {
            flags |= END
        }
        match choice(3) {
            0 => {
                let (e, n) = ls[i].0.write(ls[i].1, flags, &data);
                check(e == E_OK, "a write on a free device fails");
                check(n == data.len() as u32, "a write does not report the number of bytes it accepted");
                acc[i].extend(&data);
                if end {
                    cover(1);
                    let m = std::mem::take(&mut acc[i]);
                    expect_execs(&[m], "the device does not execute exactly the data written up to the END flag");
                } else {
                    cover(2);
                    check(dev::log_len() == 0, "a write without END flag is executed");
                }
            }
            1 => {
                let _ = o.try_acquire([&b""[..], b"a"][choice(2)]);
                let (e, _) = ls[i].0.write(ls[i].1, flags, &data);
                check(e == E_LOCKED, "a write on a device locked by another link is not refused");
                check(dev::log_len() == 0, "a refused write is executed");
                let _ = o.try_release();
                sim::run();
                check(dev::log_len() == 0, "a refused write is executed later");
            }
            _ => {
                let (e, _) = ls[i].0.write(99, flags, &data);
                check(e == E_LID, "a write on an invalid link is not refused");
                check(dev::log_len() == 0, "a write on an invalid link is executed");
            }
        }
    }
    for i in 0..2 {
        dev::take_log();
        let (e, _) = ls[i].0.write(ls[i].1, END, b"!");
        check(e == E_OK, "a write on a free device fails");
        acc[i].push(b'!');
        expect_execs(&[acc[i].clone()], "the device does not execute exactly the data written up to the END flag");
    }
}
fn h_v04_q() {
    v04(2)
}
fn h_v04_t() {
    v04(3)
}
/// Writes that wait for a lock.
fn h_v04_wait() {
    let env = start();
    dev::set_respond(no_response);
    let c = Conn::core();
    let ac = Conn::abort();
    let lid = c.link(0);
    let mut o = env.other(0);
    let mut acc = Vec::new();
    for round in 0..2 {
        let data = any_vec(1 + choice(2));
        let end = choice(2) == 1;
        let f = WAIT | if end { END } else { 0 };
        let t = if round == 0 { any_wait() } else { 7 };
        let _ = o.try_acquire([&b""[..], b"a"][choice(2)]);
        c.send(WRITE, a_write(lid, t, f, &data));
        sim::run();
        check(c.idle() && dev::log_len() == 0, "a write does not wait until the lock is gone");
        let ts = sim::timer_durs();
        check(ts.len() == 1 && ts[0] == Duration::from_millis(t as u64), "a write does not wait for the lock timeout it was given");
        match choice(3) {
            0 => {
                let _ = o.try_release();
                sim::run();
                let (e, n) = write_resp(&c.recv("a waiting write is not answered when the lock is gone"));
                check(e == E_OK && n == data.len() as u32, "a waiting write fails although the lock is gone in time");
                acc.extend(&data);
                if end {
                    cover(1);
                    expect_execs(&[std::mem::take(&mut acc)], "a waiting write is not executed intact");
                }
            }
            1 => {
                cover(2);
                sim::fire_timer();
                sim::run();
                let (e, _) = write_resp(&c.recv("a waiting write is not answered when its timeout is over"));
                check(e == E_LOCKED, "a write that timed out is not answered with the locked-by-another-link error");
            }
            _ => {
                cover(3);
                check(ac.do_abort(lid) == E_OK, "a live link cannot be aborted");
                let (e, _) = write_resp(&c.recv("an aborted write is not answered"));
                check(e == E_ABORT, "an aborted write is not answered with the abort error");
            }
        }
        let _ = o.try_release();
        sim::run();
        check(dev::log_len() == 0 && c.idle(), "a write that failed is executed, or answered twice");
    }
    let (e, _) = c.write(lid, END, b"!");
    check(e == E_OK, "a write on a free device fails");
    acc.push(b'!');
    expect_execs(&[acc], "a write that failed leaves data behind, or one that succeeded is lost");
}

// ------------------------------------------------------------------ V05 ----

static RESP: Global<Option<Vec<u8>>> = Global::new(None);
fn given_resp(_c: &[u8]) -> Option<Vec<u8>> {
    RESP.with(|r| r.clone())
}
fn check_read(c: &Conn, lid: u32, pend: &mut Vec<u8>) {
    let (req, class) = match choice(5) {
        4 => {
            let v = any_u32();
            assume(v > 40);
            (v, 100)
        }
        k => (k as u32, k),
    };
    let mut flags = any_u32();
    assume(flags & (WAIT | TERM) == 0);
    let tc = choice(2) == 1;
    let term = any_u8();
    if tc {
        flags |= TERM;
    }
    // upper bits of the term char (sign extension) do not matter
    let (e, reason, data) = c.read(lid, req, flags, if choice(2) == 1 && tc { 0xffff_ff00 | term as u32 } else { term as u32 });
    check(e == E_OK, "a read on a free device fails");
    let mut n = pend.len().min(class);
    if tc {
        for i in 0..n {
            if pend[i] == term {
                cover(1);
                n = i + 1;
                break;
            }
        }
    }
    let want: Vec<u8> = pend.drain(..n).collect();
    check_eq(&data, &want, "a read does not return the next response bytes, up to the requested size or the term char");
    let chr = tc && n > 0 && want[n - 1] == term;
    let r = (n == class) as u32 | (chr as u32) << 1 | (pend.is_empty() as u32) << 2;
    check(reason == r, "the reason of a read does not say why it ended");
}
fn v05(reads: usize, lens: usize) {
    let env = start();
    dev::set_respond(given_resp);
    let c = Conn::core();
    let lid = c.link(0);
    let other = c.link(0);
    let mut pend = Vec::new();
    let n = choice(lens);
    RESP.with(|r| *r = Some(any_vec(n)));
    let (e, _) = c.write(lid, END, b"q");
    check(e == E_OK, "a write on a free device fails");
    RESP.with(|r| pend.extend(r.take().unwrap()));
    for _ in 0..reads {
        match choice(4) {
            0 => {
                // another command, with or without response
                let n = choice(3);
                if n > 0 {
                    RESP.with(|r| *r = Some(any_vec(n)));
                }
                let (e, _) = c.write(lid, END, b"q");
                check(e == E_OK, "a write on a free device fails");
                if let Some(v) = RESP.with(|r| r.take()) {
                    pend.extend(v)
                }
            }
            1 => check_read(&c, lid, &mut pend),
            2 => {
                let mut o = env.other(0);
                let _ = o.try_acquire([&b""[..], b"a"][choice(2)]);
                let (e, _, d) = c.read(lid, any_u32(), [0, TERM][choice(2)], 10);
                check(e == E_LOCKED, "a read on a device locked by another link is not refused");
                check(d.is_empty(), "a refused read returns data");
            }
            _ => {
                let (e, r, d) = c.read(other, 100, 0, 0);
                check(e == E_OK && d.is_empty() && r & 2 == 0, "a link returns data that is not its own");
            }
        }
    }
    check_read(&c, lid, &mut pend);
    let (e, r, d) = c.read(lid, 1000, 0, 0);
    check(e == E_OK && r == 4, "the reason of a read does not say why it ended");
    check_eq(&d, &pend, "response bytes are lost, duplicated or reordered");
    cover(2);
}
fn h_v05_q() {
    v05(1, 4)
}
fn h_v05_t() {
    v05(2, 4)
}

// ------------------------------------------------------------------ V06 ----

fn any_dev_error() -> Option<(DeviceError, u32)> {
    match choice(4) {
        0 => None,
        1 => Some((DeviceError::NotSupported, 8)),
        2 => Some((DeviceError::IoTimeout, 15)),
        _ => Some((DeviceError::IoError, 17)),
    }
}
fn v06(n: usize) {
    let env = start();
    dev::set_respond(|c| Some(c.to_vec()));
    let c = Conn::core();
    let lid = c.link(0);
    let other = c.link(0);
    let mut o = env.other(0);
    let mut pend: Vec<u8> = Vec::new();
    let mut inp: Vec<u8> = Vec::new();
    // the other link always has response data
    c.write(other, END, b"zz");
    for _ in 0..n {
        dev::take_log();
        let locked = choice(2) == 1;
        if locked {
            let _ = o.try_acquire([&b""[..], b"a"][choice(2)]);
        }
        let mut flags = any_u32();
        assume(flags & WAIT == 0);
        let op = choice(8);
        if op < 4 {
            let (err, code) = match any_dev_error() {
                Some((e, c)) => (Some(e), c),
                None => (None, 0),
            };
            let (proc, want) = match op {
                0 => (TRIG, Ev::Trigger(Source::Bus)),
                1 => (CLEAR, Ev::Clear),
                2 => (REMOTE, Ev::Remote(true)),
                _ => (LOCAL, Ev::Remote(false)),
            };
            dev::DEV.with(|d| {
                d.trigger_err = None;
                d.clear_err = None;
                d.remote_err = None;
                match op {
                    0 => d.trigger_err = err,
                    1 => d.clear_err = err,
                    _ => d.remote_err = err,
                }
            });
            let e = c.generic(proc, lid, flags);
            if locked {
                check(e == E_LOCKED, "an operation on a device locked by another link is not refused");
            } else {
                cover(1);
                let log = dev::take_log();
                check(log.len() == 1 && log[0] == want, "trigger, clear, remote or local does not call its device function exactly once");
                check(e == code, "trigger, clear, remote or local does not report the outcome with the matching error code");
                if op == 1 {
                    pend.clear();
                    inp.clear();
                }
            }
            if op == 1 && locked {
                // whether a refused clear discards buffers is left open
                let _ = o.try_release();
                dev::DEV.with(|d| d.clear_err = None);
                check(c.generic(CLEAR, lid, 0) == E_OK, "a clear on a free device fails");
                pend.clear();
                inp.clear();
                dev::take_log();
            }
        } else if op == 4 {
            let v = any_u8();
            let bad = choice(2) == 1;
            dev::DEV.with(|d| d.stb = if bad { Err(()) } else { Ok(v) });
            let (e, s) = c.stb(lid, flags);
            if locked {
                check(e == E_LOCKED, "a status query on a device locked by another link is not refused");
            } else if bad {
                check(e == 17, "a failing status query is not reported with the matching error code");
            } else {
                cover(2);
                check(e == E_OK, "a status query on a free device fails");
                let want = (v & 0xef) | if pend.is_empty() { 0 } else { 0x10 };
                check(s == want as u32, "the status byte is not the device's with the message-available bit of the link");
                let log = dev::take_log();
                check(log.len() == 1 && log[0] == Ev::Status, "a status query does something else to the device");
            }
        } else if op == 5 {
            let data = any_vec(choice(2));
            let b = c.call(DOCMD, a_gen(lid, flags, 0).u(any_u32()).u(any_u32()).u(any_u32()).op(&data), "device_docmd is not answered");
            check(b.len() == 8 && rd(&b, 0) == E_UNSUP && rd(&b, 4) == 0, "device_docmd is not answered with operation not supported");
        } else if op == 6 {
            let (e, _) = c.write(lid, 0, b"i");
            if locked {
                check(e == E_LOCKED, "a write on a device locked by another link is not refused");
            } else {
                inp.push(b'i');
            }
        } else {
            let (e, _) = c.write(lid, END, b"o");
            if locked {
                check(e == E_LOCKED, "a write on a device locked by another link is not refused");
            } else {
                inp.push(b'o');
                expect_execs(&[inp.clone()], "a clear does not discard the pending input, or something else does");
                pend.append(&mut inp);
            }
        }
        let log = dev::take_log();
        if locked || op == 5 || op == 6 {
            check(log.is_empty(), "an operation that fails, is unsupported or only adds input touches the device");
        }
        let _ = o.try_release();
    }
    let (e, _, d) = c.read(lid, 1000, 0, 0);
    check(e == E_OK, "a read on a free device fails");
    check_eq(&d, &pend, "a clear does not discard the pending output, or something else does");
    c.write(lid, END, b"!");
    inp.push(b'!');
    expect_execs(&[inp], "a clear does not discard the pending input, or something else does");
    let (_, _, d) = c.read(other, 1000, 0, 0);
    check_eq(&d, b"zz", "an operation on one link discards the output of another");
}
fn h_v06_q() {
    v06(2)
}
fn h_v06_t() {
    v06(3)
}

// ------------------------------------------------------------------ V07 ----

#[derive(Clone)]
enum Pend {
    Lock,
    Op(Ev),
}
/// A lock timeout that leaves time to wait.
fn any_wait() -> u32 {
    let t = any_u32();
    assume(t != 0);
    t
}
/// An operation that uses the device, and what the device sees of it.
fn dev_op(k: usize, lid: u32, flags: u32, t: u32) -> (u32, X, Option<Ev>) {
    match k {
        0 => (WRITE, a_write(lid, t, flags | END, &[lid as u8]), Some(Ev::Exec(vec![lid as u8]))),
        1 => (READ, a_read(lid, 10, t, flags, 0), None),
        2 => (STB, a_gen(lid, flags, t), Some(Ev::Status)),
        3 => (TRIG, a_gen(lid, flags, t), Some(Ev::Trigger(Source::Bus))),
        4 => (CLEAR, a_gen(lid, flags, t), Some(Ev::Clear)),
        5 => (REMOTE, a_gen(lid, flags, t), Some(Ev::Remote(true))),
        _ => (LOCAL, a_gen(lid, flags, t), Some(Ev::Remote(false))),
    }
}
fn first_err(c: &Conn, what: &str) -> u32 {
    let b = c.recv(what);
    if b.len() < 4 {
        fail(SHAPE);
        return !0;
    }
    concrete(rd(&b, 0) as u64) as u32
}
/// The wait that began last ends after `t` milliseconds.
fn waits_for(t: u32) {
    match sim::timer_durs().last() {
        Some(d) => check(*d == Duration::from_millis(t as u64), "an operation does not wait for the lock timeout it was given"),
        None => fail("an operation waits without end although it was given a timeout"),
    }
}
/// Two links on two connections and another user of the device.
fn v07(depth: usize, ops: &[usize], zero: bool) {
    let env = start();
    dev::set_respond(no_response);
    let mut cs = vec![Conn::core(), Conn::core()];
    let mut lids = vec![cs[0].link(0), cs[1].link(0)];
    let mut m = Model::new(3);
    let mut o = env.other(0);
    let mut pend: Vec<Option<Pend>> = vec![None, None];
    for _ in 0..depth {
        dev::take_log();
        let kind = choice(7);
        match kind {
            0 => {
                let i = choice(2);
                if pend[i].is_some() {
                    prune()
                }
                let wait = choice(2) == 1;
                let t = if wait && zero && choice(2) == 1 { 0 } else { any_wait() };
                cs[i].send(LOCK, x().u(lids[i]).u(wait as u32).u(t));
                sim::run();
                match m.want(i, b"") {
                    Why::Ok => {
                        cover(1);
                        check(first_err(&cs[i], "a lock that is free is not granted") == E_OK, "a lock that is free is not granted");
                        m.grant(i, b"");
                    }
                    Why::Already => {
                        let e = first_err(&cs[i], "a second lock by the same link is not answered");
                        check(e != E_OK, "a second lock by the same link is reported as success");
                    }
                    Why::Locked => {
                        if wait && t != 0 {
                            check(cs[i].idle(), "a lock request is answered before it is granted and before its timeout");
                            waits_for(t);
                            pend[i] = Some(Pend::Lock);
                        } else {
                            let e = first_err(&cs[i], "a lock request that does not wait is not answered");
                            check(e == E_LOCKED, "a lock held by another link is not reported as such");
                        }
                    }
                }
            }
            1 => {
                let i = choice(2);
                if pend[i].is_some() {
                    prune()
                }
                let had = m.release(i).ex;
                let e = cs[i].unlock(lids[i]);
                check(e == if had { E_OK } else { E_NOLOCK }, "unlock does not report whether there was a lock");
            }
            2 => {
                let i = choice(2);
                if pend[i].is_some() {
                    prune()
                }
                let wait = choice(2) == 1;
                let t = if wait && zero && choice(2) == 1 { 0 } else { any_wait() };
                let (p, a, ev) = dev_op(ops[choice(ops.len())], lids[i], wait as u32, t);
                cs[i].send(p, a);
                sim::run();
                if m.may_use(i) {
                    cover(2);
                    let e = first_err(&cs[i], "an operation of a link that may use the device is not answered");
                    check(e == E_OK, "an operation of a link that may use the device fails");
                    let log = dev::take_log();
                    match ev {
                        Some(ev) => check(log.len() == 1 && log[0] == ev, "an operation does not have its effect exactly once"),
                        None => check(log.is_empty(), "a read has an effect on the device"),
                    }
                } else if wait && t != 0 {
                    check(cs[i].idle(), "an operation that must wait is answered at once");
                    waits_for(t);
                    pend[i] = ev.map_or(Some(Pend::Op(Ev::Exec(vec![]))), |e| Some(Pend::Op(e)));
                } else {
                    cover(3);
                    let e = first_err(&cs[i], "an operation on a locked device is not answered");
                    check(e == E_LOCKED, "an operation on a device locked by another link is not refused as such");
                }
            }
            3 => {
                let i = choice(2);
                if pend[i].is_some() {
                    prune()
                }
                if choice(2) == 0 {
                    check(cs[i].destroy(lids[i]) == E_OK, "a live link cannot be destroyed");
                } else {
                    cs[i].s.sim_close();
                    sim::run();
                    cs[i] = Conn::core();
                }
                m.release(i);
                lids[i] = cs[i].link(0);
            }
            4 => {
                let k: &[u8] = [&b""[..], b"a"][choice(2)];
                if o.try_acquire(k).is_err() {
                    prune()
                }
                check(m.want(2, k) == Why::Ok, "another user gets a lock against the rules");
                m.grant(2, k);
                sim::run();
            }
            5 => {
                if !m.holds(2) {
                    prune()
                }
                let _ = o.try_release();
                m.release(2);
                sim::run();
            }
            _ => {
                if !sim::fire_timer() {
                    prune()
                }
                sim::run();
                let mut n = 0;
                for i in 0..2 {
                    if pend[i].is_some() && !cs[i].idle() {
                        n += 1;
                        let e = first_err(&cs[i], "an operation that timed out is not answered");
                        check(e == E_LOCKED, "an operation that timed out is not answered with the locked-by-another-link error");
                        pend[i] = None;
                    }
                }
                check(n == 1, "an operation whose lock timeout is over keeps waiting");
                check(dev::log_len() == 0, "an operation that timed out has an effect");
            }
        }
        // what was waiting and is now permitted has completed
        let mut want: Vec<Ev> = Vec::new();
        let mut again = true;
        while again {
            again = false;
            for i in 0..2 {
                let done = pend[i].is_some() && !cs[i].idle();
                if !done {
                    continue;
                }
                cover(4);
                again = true;
                let e = first_err(&cs[i], "a waiting operation is not answered properly");
                check(e == E_OK, "a waiting operation fails before its timeout");
                match pend[i].take().unwrap() {
                    Pend::Lock => {
                        check(m.want(i, b"") == Why::Ok, "a waiting lock is granted against the rules");
                        m.grant(i, b"");
                    }
                    Pend::Op(ev) => want.push(ev),
                }
            }
        }
        for i in 0..2 {
            match pend[i] {
                Some(Pend::Lock) => check(m.want(i, b"") != Why::Ok, "a waiting lock is not granted when it becomes free"),
                Some(Pend::Op(_)) => check(!m.may_use(i), "a waiting operation does not complete when it is permitted"),
                None => {}
            }
        }
        if kind != 2 {
            let log = dev::take_log();
            let n = want.iter().filter(|e| **e != Ev::Exec(vec![])).count();
            check(log.len() == n, "something has an effect on the device that should not");
            for e in &want {
                check(*e == Ev::Exec(vec![]) || log.contains(e), "a waiting operation completes without its effect");
            }
        } else {
            check(dev::log_len() == 0, "a refused operation has an effect on the device");
        }
        check(o.lock_info() == (m.any_ex(), m.n_sh()), "the lock of the device is not what was reported");
    }
}
fn h_v07_q() {
    v07(3, &[0, 1], false)
}
fn h_v07_t() {
    v07(4, &[0, 1], false)
}
/// Every kind of operation against every kind of lock.
fn h_v07_ops() {
    v07(2, &[0, 1, 2, 3, 4, 5, 6], true)
}
/// The device itself is in use (by another protocol): operations that wait do so.
fn h_v07_busy() {
    let env = start();
    dev::set_respond(no_response);
    let c = Conn::core();
    let lid = c.link(0);
    let o = env.other(0);
    let g: MutexGuard<'_, D> = o.try_lock().ok().unwrap();
    let (p, a, ev) = dev_op(choice(7), lid, WAIT, any_wait());
    c.send(p, a);
    sim::run();
    check(c.idle() && dev::log_len() == 0, "an operation does not wait while the device is in use");
    drop(g);
    sim::run();
    check(first_err(&c, "a waiting operation is not answered when the device is free again") == E_OK, "a waiting operation fails when the device is free again");
    check(dev::log_len() == ev.is_some() as usize, "a waiting operation has no effect, or more than one");
}

// ------------------------------------------------------------------ V08 ----

fn v08(events: usize, n_ops: usize) {
    let env = start();
    dev::set_respond(no_response);
    let ac = Conn::abort();
    let cs = [Conn::core(), Conn::core()];
    let lids = [cs[0].link(0), cs[1].link(0)];
    let mut o = env.other(0);
    let gone = cs[0].link(0);
    check(cs[0].destroy(gone) == E_OK, "a live link cannot be destroyed");
    let mut pend: [Option<Option<Ev>>; 2] = [None, None];
    let mut held = false;
    set_shuffle(2);
    for _ in 0..events {
        match choice(4) {
            0 => {
                let i = choice(3);
                let k = if i < 2 { 0 } else { choice(3) };
                if k == 2 {
                    // only the connection of a link can destroy it
                    if pend[1].is_some() {
                        prune()
                    }
                    check(cs[1].destroy(lids[0]) == E_LID, "a connection can destroy the link of another one");
                }
                let e = ac.do_abort(if i < 2 { lids[i] } else { [gone, 77, gone][k] });
                if i == 2 {
                    check(e == E_LID, "an abort for something that is not a live link is not refused with the invalid-link error");
                } else {
                    check(e == E_OK, "an abort for a live link fails");
                    if pend[i].take().is_some() {
                        cover(1);
                        let e = first_err(&cs[i], "an operation that is waiting is not answered when it is aborted");
                        check(e == E_ABORT, "an aborted operation is not answered with the abort error");
                    } else {
                        cover(2);
                    }
                }
                check(dev::log_len() == 0, "an abort has an effect on the device");
            }
            1 => {
                let i = choice(2);
                if pend[i].is_some() {
                    prune()
                }
                let k = choice(n_ops);
                let (p, a, ev) = if k == 0 {
                    (LOCK, x().u(lids[i]).u(WAIT).u(any_wait()), None)
                } else {
                    dev_op(k - 1, lids[i], WAIT, any_wait())
                };
                if !held && k == 0 {
                    prune()
                }
                cs[i].send(p, a);
                sim::run();
                if held {
                    check(cs[i].idle(), "an operation does not wait for the lock");
                    pend[i] = Some(ev);
                } else {
                    cover(3);
                    check(first_err(&cs[i], "an operation on a free device is not answered") == E_OK, "an operation fails because of an earlier abort");
                    check(dev::take_log().len() == ev.is_some() as usize, "an operation does not have its effect exactly once");
                }
            }
            2 => {
                if held {
                    prune()
                }
                check(o.try_acquire(b"").is_ok(), "a free lock cannot be obtained");
                held = true;
            }
            _ => {
                if !held {
                    prune()
                }
                let _ = o.try_release();
                held = false;
                sim::run();
                let mut n = 0;
                let mut locks = 0;
                for i in 0..2 {
                    if let Some(ev) = pend[i].clone() {
                        // a lock request may win against the other operation
                        if cs[i].idle() {
                            check(env.other(0).lock_info().0, "a waiting operation is not completed when the lock is gone");
                            continue;
                        }
                        let e = first_err(&cs[i], "a waiting operation is not answered when the lock is gone");
                        check(e == E_OK, "an abort ends an operation it was not meant for");
                        if ev.is_none() {
                            locks += 1;
                        }
                        n += ev.is_some() as usize;
                        pend[i] = None;
                    }
                }
                check(dev::take_log().len() == n, "a waiting operation does not have its effect exactly once");
                if locks > 0 && env.other(0).lock_info().0 {
                    // give the lock back
                    for i in 0..2 {
                        if pend[i].is_none() {
                            cs[i].unlock(lids[i]);
                        }
                    }
                    for i in 0..2 {
                        if pend[i].take().is_some() {
                            check(first_err(&cs[i], "a waiting operation is not answered when the lock is gone") == E_OK, "a waiting operation fails");
                            if env.other(0).lock_info().0 {
                                cs[i].unlock(lids[i]);
                            }
                        }
                    }
                    dev::take_log();
                }
            }
        }
    }
    // both links are usable
    let _ = o.try_release();
    sim::run();
    // (what still waits does so for a lock the other one has just got)
    let first = if pend[1].is_some() && !cs[1].idle() { 1 } else { 0 };
    for i in [first, 1 - first] {
        cs[i].s.sim_take();
        cs[i].unlock(lids[i]);
    }
    sim::run();
    dev::take_log();
    for i in 0..2 {
        cs[i].s.sim_take();
        cs[i].unlock(lids[i]);
        let (p, a, _) = dev_op(0, lids[i], WAIT, 1000);
        cs[i].send(p, a);
        sim::run();
        check(first_err(&cs[i], "a link is not usable after an abort") == E_OK, "a link is not usable after an abort");
        expect_execs(&[vec![lids[i] as u8]], "a link is not usable after an abort");
    }
}
fn h_v08_q() {
    v08(4, 3)
}
fn h_v08_t() {
    v08(5, 3)
}
/// Each kind of waiting operation, aborted while it waits (also before the server
/// has looked at it, when it may be aborted or not, but not both).
fn h_v08_ops() {
    let env = start();
    dev::set_respond(no_response);
    let ac = Conn::abort();
    sim::run();
    let c = Conn::core();
    let lid = c.link(0);
    let mut o = env.other(0);
    let _ = o.try_acquire([&b""[..], b"a"][choice(2)]);
    let k = choice(8);
    let (p, a, ev) =
        if k == 7 { (LOCK, x().u(lid).u(WAIT).u(any_wait()), None) } else { dev_op(k, lid, WAIT, any_wait()) };
    let early = choice(2) == 1;
    set_shuffle(4);
    sim::set_sched_budget(if early { 3 } else { 0 });
    c.send(p, a);
    if !early {
        sim::run();
    }
    check(ac.do_abort(lid) == E_OK, "an abort for a live link fails");
    if !c.idle() {
        cover(1);
        check(first_err(&c, "an aborted operation is not answered") == E_ABORT, "an aborted operation is not answered with the abort error");
    } else {
        cover(2);
        check(early, "an operation that is waiting is not answered when it is aborted");
        let _ = o.try_release();
        sim::run();
        check(first_err(&c, "an operation is not answered") == E_OK, "an abort before an operation ends it later");
        check(dev::take_log().len() == ev.is_some() as usize, "an operation does not have its effect exactly once");
        return;
    }
    let _ = o.try_release();
    sim::run();
    check(dev::log_len() == 0, "an aborted operation has an effect");
    all_free(&env, "an aborted operation obtains the lock later");
    check(c.idle(), "an aborted operation is answered twice");
    let (e, _) = c.write(lid, WAIT | END, b"z");
    check(e == E_OK, "a link is not usable after an abort");
    expect_execs(&[b"z".to_vec()], "a link is not usable after an abort");
}

// ------------------------------------------------------------------ V09 ----

static ACC: Global<Vec<TcpStream>> = Global::new(Vec::new());
/// Accept connections on a port on behalf of the client under test.
fn acceptor(port: u16) {
    sim::spawn_any(async move {
        let l = TcpListener::bind(("127.0.0.1", port)).await.unwrap();
        while let Ok((s, _)) = l.accept().await {
            ACC.with(|a| a.push(s));
        }
    });
    sim::run();
}
fn take_streams() -> Vec<TcpStream> {
    ACC.with(std::mem::take)
}
const ADDR: u32 = 0xC0000201; // 192.0.2.1
struct Intr {
    udp: bool,
    s: Option<Conn>,
    prog: u32,
    vers: u32,
    port: u16,
}
impl Intr {
    /// Handles of the interrupt calls received since the last time.
    fn calls(&self) -> Vec<Vec<u8>> {
        let msgs: Vec<Vec<u8>> = if self.udp {
            sim_udp(self.port)
        } else {
            self.s.as_ref().map_or(Vec::new(), |c| c.records())
        };
        msgs.iter()
            .map(|m| {
                if m.len() < 44 {
                    fail("an interrupt call is not well-formed");
                    return Vec::new();
                }
                check(rd(m, 4) == 0 && rd(m, 8) == 2, "an interrupt call is not well-formed");
                check(rd(m, 12) == self.prog && rd(m, 16) == self.vers, "an interrupt call is not for the program the client named");
                check(rd(m, 20) == 30, "an interrupt call is not for device_intr_srq");
                check(
                    rd(m, 24) == 0 && rd(m, 28) == 0 && rd(m, 32) == 0 && rd(m, 36) == 0,
                    "an interrupt call carries credentials",
                );
                let n = concrete(rd(m, 40) as u64) as usize;
                if m.len() != 44 + (n + 3) / 4 * 4 {
                    fail("an interrupt call is not well-formed");
                    return Vec::new();
                }
                m[44..44 + n].to_vec()
            })
            .collect()
    }
}
fn sim_udp(port: u16) -> Vec<Vec<u8>> {
    async_std::net::udp_sent()
        .into_iter()
        .map(|u| {
            check(u.to.port() == port && u.to.ip() == IpAddr::V4(Ipv4Addr::from(ADDR)), "an interrupt call goes to another address than the client named");
            u.data
        })
        .collect()
}
fn make_intr(c: &Conn, port: u16) -> (u32, Intr) {
    let (prog, vers) = (any_u32(), any_u32());
    let udp = choice(2) == 1;
    let e = c.intr(if udp { ADDR } else { 0x7f00_0001 }, port, prog, vers, udp);
    let s = take_streams().pop().map(|s| Conn { s, xid: Cell::new(0), prog });
    (e, Intr { udp, s, prog, vers, port })
}
fn v09(depth: usize) {
    let mut env = start();
    acceptor(9000);
    sim::set_max_write([usize::MAX, 5][choice(2)]);
    let mut c = Conn::core();
    let mut lids = vec![Some(c.link(0)), Some(c.link(1))];
    let mut on: Vec<Option<Vec<u8>>> = vec![None, None];
    let mut chan: Option<Intr> = None;
    let mut old: Vec<Intr> = Vec::new();
    // an uninvolved client
    let d = Conn::core();
    let dl = d.link(0);
    check(d.enable(dl, true, b"d") == E_OK, "service requests cannot be enabled");
    for _ in 0..depth {
        match choice(7) {
            0 => {
                let (e, i) = make_intr(&c, 9000);
                if chan.is_some() {
                    check(e == E_CHAN_THERE, "a second interrupt channel is not refused with the proper error");
                    check(i.s.is_none(), "a second interrupt channel is established");
                } else {
                    check(e == E_OK, "an interrupt channel cannot be created");
                    check(i.udp || i.s.is_some(), "an interrupt channel is not connected to the client");
                    chan = Some(i);
                }
            }
            1 => {
                let e = c.destroy_intr();
                match chan.take() {
                    Some(i) => {
                        check(e == E_OK, "an interrupt channel cannot be destroyed");
                        old.push(i);
                    }
                    None => check(e == E_CHAN, "destroying an interrupt channel that does not exist is not refused with the proper error"),
                }
            }
            2 => {
                let i = choice(2);
                // handles of different lengths tell the links apart
                let h = any_vec(1 + i * 4);
                match lids[i] {
                    Some(l) => {
                        check(c.enable(l, true, &h) == E_OK, "service requests cannot be enabled");
                        on[i] = Some(h);
                    }
                    None => prune(),
                }
            }
            3 => {
                let i = choice(2);
                match lids[i] {
                    Some(l) => {
                        check(c.enable(l, false, &any_vec(1)) == E_OK, "service requests cannot be disabled");
                        on[i] = None;
                    }
                    None => prune(),
                }
            }
            4 => {
                let i = choice(2);
                match lids[i].take() {
                    Some(l) => {
                        check(c.destroy(l) == E_OK, "a live link cannot be destroyed");
                        on[i] = None;
                    }
                    None => prune(),
                }
            }
            5 => {
                if let Some(i) = chan.take() {
                    old.push(i)
                }
                c.s.sim_close();
                sim::run();
                on = vec![None, None];
                c = Conn::core();
                lids = vec![Some(c.link(0)), Some(c.link(1))];
            }
            _ => {
                env.srq.send_status(any_u8());
                sim::run();
                signal_check(&chan, &on);
            }
        }
        for i in &old {
            if !i.udp {
                check(i.calls().is_empty(), "an interrupt call is sent on a channel that was destroyed");
                if let Some(s) = &i.s {
                    check(s.closed(), "an interrupt channel that was destroyed stays connected");
                }
            }
        }
    }
    env.srq.send_status(any_u8());
    sim::run();
    signal_check(&chan, &on);
    check(d.idle(), "a service request disturbs another client");
}
fn signal_check(chan: &Option<Intr>, on: &Vec<Option<Vec<u8>>>) {
    let got = match chan {
        Some(ch) => ch.calls(),
        None => {
            check(async_std::net::udp_sent().is_empty(), "an interrupt call is sent without an interrupt channel");
            Vec::new()
        }
    };
    let want: Vec<&Vec<u8>> = if chan.is_some() { on.iter().flatten().collect() } else { Vec::new() };
    if want.len() > 0 {
        cover(1)
    } else {
        cover(2)
    }
    check(got.len() == want.len(), "a status signal does not lead to exactly one interrupt call per enabled link");
    for w in want {
        match got.iter().find(|g| g.len() == w.len()) {
            Some(g) => check_eq(g, w, "an interrupt call does not carry the handle given at enabling"),
            None => fail("an interrupt call does not carry the handle given at enabling"),
        }
    }
}
fn h_v09_q() {
    v09(4)
}
fn h_v09_t() {
    v09(5)
}
/// A client which does not take its service requests in time.
fn h_v09_slow() {
    let mut env = start();
    acceptor(9000);
    acceptor(9001);
    let c = Conn::core();
    let d = Conn::core();
    let lids = [c.link(0), c.link(1)];
    let dl = d.link(0);
    let tcp = |c: &Conn, port: u16| {
        let e = c.intr(0x7f00_0001, port, 0x0607b1, 1, false);
        check(e == E_OK, "an interrupt channel cannot be created");
        let s = take_streams().pop().map(|s| Conn { s, xid: Cell::new(0), prog: 0x0607b1 });
        Intr { udp: false, s, prog: 0x0607b1, vers: 1, port }
    };
    let ci = tcp(&c, 9000);
    let di = tcp(&d, 9001);
    let cs = match &ci.s {
        Some(s) => s,
        None => return fail("an interrupt channel is not connected to the client"),
    };
    let hs: [&[u8]; 2] = [b"h", b"other"];
    for i in 0..2 {
        check(c.enable(lids[i], true, hs[i]) == E_OK, "service requests cannot be enabled");
    }
    check(d.enable(dl, true, b"d") == E_OK, "service requests cannot be enabled");
    let room = [0, 2, 4, 30, 52, 56, 70, 108][choice(8)];
    cs.s.sim_limit_peer_writes(room, [usize::MAX, 3][choice(2)]);
    for _ in 0..1 + choice(2) {
        env.srq.send_status(any_u8());
        sim::run();
        check(di.calls().len() == 1, "a client that does not take its service requests keeps another one from getting its own");
    }
    let mut on = [true, true];
    let i = choice(2);
    match choice(4) {
        0 => {
            check(c.enable(lids[i], false, b"") == E_OK, "service requests cannot be disabled");
            on[i] = false;
        }
        1 => {
            check(c.destroy(lids[i]) == E_OK, "a live link cannot be destroyed");
            on[i] = false;
        }
        2 => check(c.enable(lids[i], true, hs[i]) == E_OK, "service requests cannot be enabled"),
        _ => {
            c.s.sim_close();
            sim::run();
            on = [false, false];
        }
    }
    cs.s.sim_limit_peer_writes(usize::MAX, usize::MAX);
    sim::run();
    env.srq.send_status(any_u8());
    sim::run();
    check(di.calls().len() == 1, "a client that does not take its service requests keeps another one from getting its own");
    // whole calls only, until the channel is closed
    let b = cs.s.sim_take();
    let mut k = 0;
    let mut n = [0, 0];
    while k + 4 <= b.len() {
        let len = concrete(rd(&b, k) as u64 & 0x7fff_ffff) as usize;
        if k + 4 + len > b.len() {
            break;
        }
        let m = &b[k + 4..k + 4 + len];
        if len < 48 || rd(m, 4) != 0 || rd(m, 12) != 0x0607b1 || rd(m, 20) != 30 {
            fail("an interrupt call is not well-formed");
            return;
        }
        match rd(m, 40) {
            1 => n[0] += 1,
            5 => n[1] += 1,
            _ => fail("an interrupt call does not carry the handle given at enabling"),
        }
        k += 4 + len;
    }
    if k < b.len() {
        cover(2);
        check(cs.closed(), "a cut interrupt call is followed by others, or by none although the channel stays open");
    } else {
        cover(1);
    }
    if !cs.closed() {
        for i in 0..2 {
            if on[i] {
                check(n[i] >= 1, "a link that enabled service requests gets none");
            }
        }
    } else if on != [false, false] {
        let _ = c.destroy_intr();
        let again = tcp(&c, 9000);
        env.srq.send_status(any_u8());
        sim::run();
        check(again.calls().len() >= 1, "no service requests are sent on a new interrupt channel");
    }
}
/// Two clients with an interrupt channel each.
fn h_v09_two() {
    let mut env = start();
    acceptor(9000);
    acceptor(9001);
    let mut cs: Vec<Option<Conn>> = vec![Some(Conn::core()), Some(Conn::core())];
    let mut lids = [0u32; 2];
    let mut chan: Vec<Option<Intr>> = vec![None, None];
    let mut on: Vec<Option<Vec<u8>>> = vec![None, None];
    let same = choice(2);
    for i in 0..2 {
        lids[i] = cs[i].as_ref().unwrap().link(i * same);
    }
    let late = choice(2) == 1;
    for k in 0..4 {
        // channels before links are enabled, or the other way round
        let i = k % 2;
        let c = cs[i].as_ref().unwrap();
        if (k < 2) == late {
            let h = any_vec(1 + i * 4);
            check(c.enable(lids[i], true, &h) == E_OK, "service requests cannot be enabled");
            on[i] = Some(h);
        } else {
            let (e, ch) = make_intr(c, 9000 + i as u16);
            check(e == E_OK, "an interrupt channel cannot be created");
            chan[i] = Some(ch);
        }
    }
    for _ in 0..3 {
        let i = choice(2);
        match (choice(6), &cs[i]) {
            (0, Some(c)) => {
                check(c.enable(lids[i], false, b"") == E_OK, "service requests cannot be disabled");
                on[i] = None;
            }
            (1, Some(c)) => {
                if chan[i].is_none() {
                    prune()
                }
                check(c.destroy_intr() == E_OK, "an interrupt channel cannot be destroyed");
                chan[i] = None;
            }
            (2, Some(c)) => {
                check(c.destroy(lids[i]) == E_OK, "a live link cannot be destroyed");
                on[i] = None;
                lids[i] = c.link(i * same);
            }
            (3, Some(c)) => {
                match choice(2) {
                    0 => c.s.sim_close(),
                    _ => c.s.sim_reset(),
                }
                sim::run();
                cs[i] = None;
                on[i] = None;
                chan[i] = None;
            }
            (4, Some(c)) => {
                let h = any_vec(1 + i * 4);
                check(c.enable(lids[i], true, &h) == E_OK, "service requests cannot be enabled");
                on[i] = Some(h);
            }
            (5, _) if i == 0 => {
                env.srq.send_status(any_u8());
                sim::run();
                two_check(&chan, &on);
            }
            _ => prune(),
        }
    }
    env.srq.send_status(any_u8());
    sim::run();
    two_check(&chan, &on);
    for c in cs.iter().flatten() {
        check(c.idle(), "a service request disturbs the core channel");
    }
}
fn two_check(chan: &[Option<Intr>], on: &[Option<Vec<u8>>]) {
    let udp = async_std::net::udp_sent();
    let mut used = 0;
    for i in 0..2 {
        let got: Vec<Vec<u8>> = match &chan[i] {
            Some(ch) if ch.udp => {
                // the datagrams to this client's port
                let mine: Vec<Vec<u8>> = udp.iter().filter(|u| u.to.port() == ch.port).map(|u| u.data.clone()).collect();
                used += mine.len();
                mine
            }
            Some(ch) => {
                let s = ch.s.as_ref().map_or(Vec::new(), |c| c.records());
                s
            }
            None => Vec::new(),
        };
        let want = if chan[i].is_some() { on[i].as_ref() } else { None };
        check(got.len() == want.is_some() as usize, "a status signal does not lead to exactly one interrupt call per enabled link");
        if let (Some(g), Some(w)) = (got.first(), want) {
            cover(1);
            let ch = chan[i].as_ref().unwrap();
            if g.len() != 44 + (w.len() + 3) / 4 * 4 {
                fail("an interrupt call does not carry the handle given at enabling");
                return;
            }
            check(rd(g, 12) == ch.prog && rd(g, 16) == ch.vers, "an interrupt call is not for the program the client named");
            check_eq(&g[44..44 + w.len()], w, "an interrupt call does not carry the handle given at enabling");
        }
    }
    check(used == udp.len(), "an interrupt call goes to another address than the client named");
}
/// A client that does not read its replies is nobody's problem but its own.
fn h_v02_slow() {
    let env = start();
    dev::set_respond(|c| Some(c.to_vec()));
    let a = Conn::core();
    let b = Conn::core();
    let (la, lb) = (a.link(0), b.link(0));
    let (e, _) = a.write(la, END, &pattern(40, b'a'));
    check(e == E_OK, "a write on a free device fails");
    dev::take_log();
    // from now on, a takes nothing (or a few bytes)
    a.s.sim_limit_peer_writes(choice(3), 1 + choice(4));
    let n = 1 + choice(3);
    let what = choice(6);
    for _ in 0..n {
        match what {
            0 => a.send(READ, a_read(la, 5, 0, 0, 0)),
            1 => a.send(WRITE, a_write(la, 0, END, b"x")),
            2 => a.send(STB, x().u(la).u(0).u(0).u(0)),
            3 => a.send(TRIG, x().u(la).u(0).u(0).u(0)),
            4 => a.send(CREATE_LINK, a_create(NAMES[0], false, 0)),
            _ => a.send(0, x()),
        };
        sim::run();
    }
    let before = dev::take_log();
    let (e, _) = b.write(lb, END, b"bb");
    check(e == E_OK, "a client that does not read keeps another one from working");
    check(dev::execs() == vec![b"bb".to_vec()], "a client that does not read keeps another one from working");
    let (e, _, d) = b.read(lb, 100, 0, 0);
    check(e == E_OK && d == b"bb", "a client that does not read keeps another one from working");
    check(b.lock(lb, 0, 0) == E_OK, "a client that does not read keeps the device");
    check(b.unlock(lb) == E_OK, "a client that does not read keeps the device");
    let ac = Conn::abort();
    check(ac.do_abort(la) == E_OK, "a client that does not read keeps another one from working");
    let c = Conn::core();
    let lc = c.link(0);
    check(lc != la && lc != lb, "two live links have the same id");
    dev::take_log();
    // it comes back
    a.s.sim_limit_peer_writes(usize::MAX, usize::MAX);
    let r = drained(&a);
    let rs = r.replies();
    check(rs.len() == n, "a call is not answered exactly once");
    for (i, r) in rs.iter().enumerate() {
        check(r.stat == Stat::Ok && r.xid == a.xid.get() - (n - 1 - i) as u32, "a reply does not carry the transaction id of its call");
    }
    cover(1);
    let after = dev::take_log();
    let want = if what == 1 || what == 2 || what == 3 { n } else { 0 };
    check(before.len() + after.len() == want, "a call does not have its effect exactly once");
    drop(env);
}
/// An interrupt channel that breaks is replaced.
fn h_v09_broken() {
    let mut env = start();
    acceptor(9000);
    let c = Conn::core();
    let lid = c.link(0);
    if choice(2) == 1 {
        // nobody listens
        check(c.intr(0x7f00_0001, 9001, 1, 1, false) == E_CHAN, "an interrupt channel that cannot be established is not reported as such");
        check(c.destroy_intr() == E_CHAN, "an interrupt channel that could not be established exists");
    }
    let (e, i) = make_intr(&c, 9000);
    check(e == E_OK, "an interrupt channel cannot be created");
    let h = any_vec(2);
    check(c.enable(lid, true, &h) == E_OK, "service requests cannot be enabled");
    let n = choice(3);
    if i.udp {
        let from = {
            env.srq.send_status(1);
            sim::run();
            let u = async_std::net::udp_sent();
            check(u.len() == 1, "a status signal does not lead to exactly one interrupt call per enabled link");
            if u.is_empty() {
                return;
            }
            u[0].from.port()
        };
        async_std::net::udp_fail_sends(from, Some(io::ErrorKind::ConnectionRefused));
        for _ in 0..n {
            env.srq.send_status(1);
            sim::run();
        }
        async_std::net::udp_fail_sends(from, None);
        if choice(2) == 1 {
            env.srq.send_status(1);
            sim::run();
            signal_check(&Some(i), &vec![Some(h)]);
            return;
        }
    } else {
        i.s.as_ref().unwrap().s.sim_close();
        for _ in 0..n {
            env.srq.send_status(1);
            sim::run();
        }
    }
    async_std::net::udp_sent();
    check(c.destroy_intr() == E_OK, "a broken interrupt channel cannot be destroyed");
    let (e, i) = make_intr(&c, 9000);
    check(e == E_OK, "an interrupt channel cannot be created");
    env.srq.send_status(any_u8());
    sim::run();
    cover(1);
    signal_check(&Some(i), &vec![Some(h)]);
}

// ------------------------------------------------------------------ V10 ----

fn h_v10_bind() {
    let srq = StatusSender::new();
    let (p, q) = [(4400u16, 4500u16), (5025, 5026), (65535, 1)][choice(3)];
    let dev = Arc::new(Mutex::new(D(0)));
    let lock = SharedLock::new();
    let swap = choice(2) == 1;
    let b = VxiServerBuilder::new();
    let b = if swap { b.async_port(q).core_port(p) } else { b.core_port(p).async_port(q) };
    let (core, abort) = b.device("inst0".to_string(), dev, lock).build(srq);
    let lo = IpAddr::V4(Ipv4Addr::LOCALHOST);
    sim::spawn_any(async move {
        let _ = core.bind(lo).await;
    });
    sim::spawn_any(async move {
        let _ = abort.bind(lo).await;
    });
    sim::run();
    let (c, a) = match (sim::connect(p), sim::connect(q)) {
        (Ok(c), Ok(a)) => (
            Conn { s: c, xid: Cell::new(0), prog: CORE },
            Conn { s: a, xid: Cell::new(0), prog: ASYNC },
        ),
        _ => {
            fail("the servers do not listen on the configured ports");
            return;
        }
    };
    let b = c.call(CREATE_LINK, a_create(b"inst0", false, 0), "the core service is not reachable at its port");
    check(b.len() == 16 && rd(&b, 0) == 0, "the core service is not reachable at its port");
    check(rd(&b, 8) == q as u32, "create_link does not return the port of the abort channel");
    check(a.do_abort(rd(&b, 4)) == E_OK, "the abort service is not reachable at its port");
}
fn reply_ok(xid: u32, body: X) -> Vec<u8> {
    x().u(xid).u(1).u(0).u(0).u(0).u(0).raw(&body.0).0
}
/// The calls a client under test has sent on a stream or by UDP.
struct Peer {
    udp: bool,
    s: Option<Conn>,
    from: u16,
}
impl Peer {
    fn calls(&mut self) -> Vec<Vec<u8>> {
        if self.udp {
            async_std::net::udp_sent()
                .into_iter()
                .map(|u| {
                    self.from = u.from.port();
                    check(u.to.port() == PMAP_PORT, "the client sends to another address than it was given");
                    u.data
                })
                .collect()
        } else {
            if self.s.is_none() {
                self.s = take_streams().pop().map(|s| Conn { s, xid: Cell::new(0), prog: PMAP });
            }
            self.s.as_ref().map_or(Vec::new(), |s| s.records())
        }
    }
    fn answer(&self, b: &[u8]) {
        if self.udp {
            async_std::net::udp_inject(self.from, PMAP_PORT, Ok(b.to_vec()));
        } else {
            self.s.as_ref().unwrap().put(&rec(b));
        }
        sim::run();
    }
}
/// One call of the portmapper, well-formed, with these arguments.
fn check_call(m: &[u8], proc: u32, args: &X) -> u32 {
    if m.len() != 40 + args.0.len() {
        fail("the client does not send exactly one well-formed call with its arguments");
        return 0;
    }
    let w = call_msg(rd(m, 0), PMAP, 2, proc, &args.0);
    check_eq(m, &w, "the client does not send exactly one well-formed call with its arguments");
    rd(m, 0)
}
fn a_map(prog: u32, vers: u32, prot: u32, port: u32) -> X {
    x().u(prog).u(vers).u(prot).u(port)
}
static DONE: Global<Option<bool>> = Global::new(None);
fn h_v10_register() {
    acceptor(PMAP_PORT);
    let (p, q) = (any_u16(), any_u16());
    let lock = SharedLock::new();
    let b = VxiServerBuilder::new().core_port(p).async_port(q).device("inst0".to_string(), Arc::new(Mutex::new(D(0))), lock);
    sim::spawn_any(async move {
        let r = b.register_portmap(("127.0.0.1", PMAP_PORT)).await;
        DONE.with(|d| *d = Some(r.is_ok()));
    });
    sim::run();
    let mut peer = Peer { udp: false, s: None, from: 0 };
    if p == 0 || q == 0 {
        cover(1);
        check(DONE.with(|d| *d) == Some(false), "dynamic ports are registered");
        return;
    }
    let mut ok = true;
    let mut want = vec![(CORE, p), (ASYNC, q)];
    for _ in 0..2 {
        if DONE.with(|d| d.is_some()) {
            break;
        }
        let m = peer.calls();
        if m.len() != 1 || m[0].len() != 56 {
            fail("the server does not register one mapping after the other");
            return;
        }
        let prog = concrete(rd(&m[0], 40) as u64) as u32;
        let k = match want.iter().position(|w| w.0 == prog) {
            Some(k) => k,
            None => {
                fail("the server registers something else than its two services");
                return;
            }
        };
        let (prog, port) = want.remove(k);
        let xid = check_call(&m[0], 1, &a_map(prog, 1, 6, port as u32));
        let yes = choice(2) == 1;
        ok &= yes;
        peer.answer(&reply_ok(xid, x().u(yes as u32)));
    }
    cover(2);
    check(peer.calls().is_empty(), "the server registers more than its two services");
    check(DONE.with(|d| *d) == Some(ok), "registering succeeds although a mapping was refused, or fails although all were accepted");
    check(!ok || want.is_empty(), "registering succeeds without registering both services");
}

// ------------------------------------------------------------------ P01 ----

fn any_map() -> Mapping {
    Mapping::new(any_u32(), any_u32(), any_u32(), any_u32())
}
fn pmap_call(udp: bool, c: &Option<Conn>, proc: u32, args: &X) -> Option<Vec<u8>> {
    let xid = any_u32();
    let m = call_msg(xid, PMAP, 2, proc, &args.0);
    let rep = if udp {
        async_std::net::udp_inject(PMAP_PORT, 700, Ok(m));
        sim::run();
        let mut u = async_std::net::udp_sent();
        if u.len() != 1 {
            fail("a query is not answered with exactly one datagram");
            return None;
        }
        let u = u.pop().unwrap();
        check(u.to.port() == 700 && u.from.port() == PMAP_PORT, "the answer to a query does not go to where the query came from");
        parse_reply(&u.data)
    } else {
        let c = c.as_ref().unwrap();
        c.put(&rec(&m));
        sim::run();
        let mut r = c.replies();
        if r.len() != 1 {
            fail("a query is not answered with exactly one reply");
            return None;
        }
        r.pop()
    }?;
    check(rep.xid == xid && rep.stat == Stat::Ok, "a query is not answered successfully");
    Some(rep.body)
}
fn h_p01_query() {
    let ms = [any_map(), any_map(), any_map()];
    start_pmap(ms);
    let udp = choice(2) == 1;
    let c = if udp { None } else { Some(Conn::open(PMAP_PORT, PMAP)) };
    let n = 1 + choice(2);
    for _ in 0..n {
        if choice(2) == 0 {
            let q = any_map();
            if let Some(b) = pmap_call(udp, &c, 3, &a_map(q.prog, q.vers, q.prot, q.port)) {
                let mut want = 0;
                for m in ms.iter().rev() {
                    if m.prog == q.prog && m.vers == q.vers && m.prot == q.prot {
                        want = m.port;
                    }
                }
                cover(1);
                check(b.len() == 4 && rd(&b, 0) == want, "a port query is not answered with the first matching mapping");
            }
        } else if let Some(b) = pmap_call(udp, &c, 4, &x()) {
            cover(2);
            let mut w = x();
            for m in &ms {
                w = w.u(1).u(m.prog).u(m.vers).u(m.prot).u(m.port);
            }
            w = w.u(0);
            check_eq(&b, &w.0, "a dump does not return exactly the registered mappings in order");
        }
    }
}
/// Any datagram, answered or not, leaves the server working.
fn p01_udp(lens: &[usize]) {
    start_pmap(some_map());
    let n = lens[choice(lens.len())];
    let b = any_vec(n);
    let from = [700, 0][choice(2)];
    let fails = choice(2) == 1;
    if fails {
        async_std::net::udp_fail_sends(PMAP_PORT, Some(io::ErrorKind::PermissionDenied));
    }
    async_std::net::udp_inject(PMAP_PORT, from, Ok(b.clone()));
    if choice(2) == 1 {
        sim::run();
        let u = async_std::net::udp_sent();
        check(u.len() <= 1, "a datagram is answered more than once");
        for u in u {
            cover(1);
            if let Some(r) = parse_reply(&u.data) {
                check(r.xid == rd(&b, 0), "a reply does not carry the transaction id of its call");
            }
        }
    }
    sim::run();
    async_std::net::udp_sent();
    async_std::net::udp_fail_sends(PMAP_PORT, None);
    cover(2);
    let r = pmap_call(true, &None, 3, &a_map(CORE, 1, 17, 0));
    check(r.map_or(false, |b| b.len() == 4 && rd(&b, 0) == 4401), "the port mapper does not answer queries any more");
    let c = Some(Conn::open(PMAP_PORT, PMAP));
    let r = pmap_call(false, &c, 3, &a_map(CORE, 1, 6, 0));
    check(r.map_or(false, |b| b.len() == 4 && rd(&b, 0) == 4400), "the port mapper does not answer queries any more");
}
fn h_p01_udp() {
    p01_udp(&[0, 3, 4, 8, 11, 12, 28, 32, 40])
}
fn h_p01_udp_t() {
    p01_udp(&[0, 1, 3, 4, 7, 8, 11, 12, 16, 20, 24, 28, 31, 32, 33, 36, 40, 41, 44])
}
/// Any RPC header by UDP.
fn h_p01_hdr() {
    start_pmap(some_map());
    let h = any_hdr();
    let b = hdr_bytes(h, b"", b"");
    async_std::net::udp_inject(PMAP_PORT, 700, Ok(b));
    sim::run();
    let u = async_std::net::udp_sent();
    if u.len() != 1 {
        fail("a well-formed call is not answered with exactly one reply");
        return;
    }
    if let Some(r) = parse_reply(&u[0].data) {
        want_stat(2, h, &r);
    }
    // arguments cut short
    let cut = choice(16);
    let m = call_msg(5, PMAP, 2, 3, &any_vec(cut));
    async_std::net::udp_inject(PMAP_PORT, 701, Ok(m));
    sim::run();
    let u = async_std::net::udp_sent();
    check(u.len() == 1, "a query with incomplete arguments is not answered");
    if u.len() == 1 {
        let r = parse_reply(&u[0].data);
        check(r.map_or(false, |r| r.xid == 5 && r.stat == Stat::Garbage), "a query with incomplete arguments is not answered with GARBAGE_ARGS");
    }
}

// ------------------------------------------------------------------ P02 ----

/// What a client call returned: a value, or the name of the error.
#[derive(Clone)]
enum Got {
    Unit,
    Bool(bool),
    U16(u16),
    U32(u32),
    Err(Vec<u8>),
}
/// Takes the first piece of text and no more: the name of an enum variant.
struct Name(Vec<u8>);
impl std::fmt::Write for Name {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.extend_from_slice(s.as_bytes());
        Err(std::fmt::Error)
    }
}
fn name_of(e: &dyn std::fmt::Debug) -> Vec<u8> {
    let mut n = Name(Vec::new());
    let _ = std::fmt::write(&mut n, format_args!("{:?}", e));
    if NUMBERS.with(|b| *b) && n.0.ends_with(b"Missmatch") {
        let mut m = Numbers(Vec::new());
        let _ = std::fmt::write(&mut m, format_args!("{:?}", e));
        n.0.extend_from_slice(&m.0);
    }
    n.0
}
/// Takes the numbers in a text.
struct Numbers(Vec<u8>);
impl std::fmt::Write for Numbers {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.bytes().all(|b| b.is_ascii_digit()) && !s.is_empty() {
            self.0.push(b' ');
            self.0.extend_from_slice(s.as_bytes());
        }
        Ok(())
    }
}
/// Whether errors carry the numbers they contain.
static NUMBERS: Global<bool> = Global::new(false);
static GOT: Global<Vec<Got>> = Global::new(Vec::new());
fn got(g: Got) {
    GOT.with(|v| v.push(g))
}
fn gotr<T, E: std::fmt::Debug>(r: Result<T, E>, f: impl Fn(T) -> Got) {
    match r {
        Ok(v) => got(f(v)),
        Err(e) => got(Got::Err(name_of(&e))),
    }
}
fn take_got() -> Vec<Got> {
    GOT.with(std::mem::take)
}
/// Start `n` calls of one kind; returns procedure and arguments.
fn client(udp: bool, ops: Vec<usize>, m: Mapping, a: u32) -> Peer {
    if !udp {
        acceptor(PMAP_PORT);
    }
    sim::spawn_any(async move {
        let to = (Ipv4Addr::from(if udp { ADDR } else { 0x7f00_0001 }), PMAP_PORT);
        let c = if udp { PortMapperClient::connect_udp(to).await } else { PortMapperClient::connect_tcp(to).await };
        let mut c = match c {
            Ok(c) => c,
            Err(_) => {
                fail("the client cannot connect");
                return;
            }
        };
        for op in ops {
            match op {
                0 => gotr(c.null().await, |_| Got::Unit),
                1 => gotr(c.set(m).await, Got::Bool),
                2 => gotr(c.unset(m).await, Got::Bool),
                3 => gotr(c.getport(m).await, Got::U16),
                4 => gotr(c.callit::<u32, u32>(m.prog, m.vers, m.prot, a).await, Got::U32),
                _ => gotr(c.register(m).await, |_| Got::Unit),
            }
        }
    });
    sim::run();
    Peer { udp, s: None, from: 0 }
}
fn op_args(op: usize, m: Mapping, a: u32) -> (u32, X) {
    match op {
        0 => (0, x()),
        1 => (1, a_map(m.prog, m.vers, m.prot, m.port)),
        2 => (2, a_map(m.prog, m.vers, m.prot, m.port)),
        3 => (3, a_map(m.prog, m.vers, m.prot, m.port)),
        4 => (5, x().u(m.prog).u(m.vers).u(m.prot).u(4).u(a)),
        _ => (2, a_map(m.prog, m.vers, m.prot, m.port)),
    }
}
/// What the client must return for this results part of a successful reply.
fn want_value(op: usize, body: &[u8]) -> Option<Got> {
    match op {
        0 => Some(Got::Unit),
        1 | 2 if body.len() >= 4 => Some(Got::Bool(rd(body, 0) != 0)),
        3 if body.len() >= 4 && rd(body, 0) < 65536 => Some(Got::U16(rd(body, 0) as u16)),
        4 if body.len() >= 12 && rd(body, 4) >= 4 && rd(body, 4) as usize <= body.len() - 8 => Some(Got::U32(rd(body, 8))),
        _ => None,
    }
}
fn check_got(w: Option<Got>, what: &str) {
    let g = take_got();
    if g.len() != 1 {
        fail("a call does not return after its reply");
        return;
    }
    match (w, &g[0]) {
        (Some(Got::Unit), Got::Unit) => {}
        (Some(Got::Bool(a)), Got::Bool(b)) => check(a == *b, what),
        (Some(Got::U16(a)), Got::U16(b)) => check(a == *b, what),
        (Some(Got::U32(a)), Got::U32(b)) => check(a == *b, what),
        (Some(Got::Err(a)), Got::Err(b)) => check(a == *b, "a rejected call is not reported with the matching error"),
        (Some(_), _) => fail(what),
        (None, Got::Err(_)) => {}
        (None, _) => fail("a reply that is no success, or incomplete, is returned as a success"),
    }
}
/// Many calls by one client, some of them refused, answered with nonsense or late.
fn h_p02_many() {
    let udp = choice(2) == 1;
    let (m, a) = (any_map(), any_u32());
    let v = any_u32();
    let n = 300;
    let stale = choice(2) == 1;
    let bad = choice(3);
    let mut peer = client(udp, (0..n).map(|i| i % 5).collect(), m, a);
    let mut xids: Vec<u64> = Vec::new();
    let mut last: Vec<u8> = Vec::new();
    for i in 0..n {
        let c = peer.calls();
        if c.len() != 1 {
            fail("the client does not send exactly one call");
            return;
        }
        let op = i % 5;
        let (proc, args) = op_args(op, m, a);
        let xid = concrete(check_call(&c[0], proc, &args) as u64);
        check(xids.iter().all(|o| *o != xid), "two calls have the same transaction id");
        xids.push(xid);
        let xid = xid as u32;
        check(take_got().is_empty(), "a call returns before its reply");
        if stale && i > 0 {
            // the reply to the previous call, again
            peer.answer(&last);
            check(take_got().is_empty(), "a call returns the reply to another call");
        }
        let w = v.wrapping_add(i as u32);
        let body = match op {
            0 => x(),
            3 => x().u(w & 0xffff),
            4 => x().u(w).u(4).u(w),
            _ => x().u(w & 1),
        };
        let r = reply_ok(xid, body.clone());
        let want = if bad > 0 && i % 7 == 3 {
            let r = if bad == 1 { x().u(xid).u(1).u(0).u(0).u(0).u(3).0 } else { r[..r.len() - 1 - (i % 2)].to_vec() };
            peer.answer(&r);
            if bad == 1 { Some(Got::Err(b"ProcUnavail".to_vec())) } else { None }
        } else {
            peer.answer(&r);
            want_value(op, &body.0)
        };
        check_got(want, "a call does not return what the reply contains");
        last = r;
    }
    cover(1);
    check(peer.calls().is_empty(), "the client does not send exactly one call");
}
fn h_p02_reply() {
    let udp = choice(2) == 1;
    let op = choice(5);
    if !udp {
        sim::set_max_write([usize::MAX, 3][choice(2)]);
    }
    let (m, a) = (any_map(), any_u32());
    let mut peer = client(udp, vec![op, 0], m, a);
    let c = peer.calls();
    if c.len() != 1 {
        fail("the client does not send exactly one call");
        return;
    }
    let (proc, args) = op_args(op, m, a);
    let xid = check_call(&c[0], proc, &args);
    check(take_got().is_empty(), "a call returns before its reply");
    let body = match op {
        0 => x(),
        4 => x().u(any_u32()).u(4).u(any_u32()),
        _ => x().u(any_u32()),
    };
    match choice(5) {
        0 => {
            // success, in any circumstances the protocol allows
            if choice(2) == 1 {
                // a reply to another call comes first
                let o = any_u32();
                assume(o != xid);
                peer.answer(&reply_ok(o, X(any_vec(body.0.len()))));
                check(take_got().is_empty(), "a call returns the reply to another call");
            }
            let r = reply_ok(xid, body.clone());
            if udp {
                peer.answer(&r);
            } else {
                let s = &peer.s.as_ref().unwrap();
                let k = [0, 1, 24, r.len()][choice(4)];
                s.put(&x().u(k as u32).raw(&r[..k]).0);
                sim::run();
                check(take_got().is_empty(), "a call returns before its reply is complete");
                if choice(2) == 1 {
                    for b in rec(&r[k..]) {
                        s.put(&[b]);
                        sim::run();
                    }
                } else {
                    s.put(&rec(&r[k..]));
                }
                sim::run();
            }
            cover(1);
            check_got(want_value(op, &body.0), "a call does not return what the reply contains");
            // the connection is still usable: the next call
            let c = peer.calls();
            check(c.len() == 1, "the client does not send exactly one call");
            if c.len() == 1 {
                let x2 = check_call(&c[0], 0, &x());
                check(x2 != xid, "two calls have the same transaction id");
                peer.answer(&reply_ok(x2, x()));
                check_got(Some(Got::Unit), "a call does not return what the reply contains");
            }
        }
        1 => {
            // rejected
            NUMBERS.with(|b| *b = true);
            let (lo, hi) = ([0, 2, u32::MAX][choice(3)], [1, 2, u32::MAX][choice(3)]);
            let range = format!(" {} {}", lo, hi);
            let (r, name): (X, &[u8]) = match choice(9) {
                0 => (x().u(xid).u(1).u(0).u(0).u(0).u(1), b"ProgUnavail"),
                1 => (x().u(xid).u(1).u(0).u(0).u(0).u(2).u(lo).u(hi), b"ProgMissmatch"),
                2 => (x().u(xid).u(1).u(0).u(0).u(0).u(3), b"ProcUnavail"),
                3 => (x().u(xid).u(1).u(0).u(0).u(0).u(4), b"GarbageArgs"),
                4 => (x().u(xid).u(1).u(0).u(0).u(0).u(5), b"SystemErr"),
                5 => (x().u(xid).u(1).u(1).u(0).u(lo).u(hi), b"RpcMissmatch"),
                6 => {
                    let s = any_u32();
                    assume(s <= 7);
                    (x().u(xid).u(1).u(1).u(1).u(s), b"AuthError")
                }
                7 => {
                    let s = any_u32();
                    assume(s > 5);
                    (x().u(xid).u(1).u(0).u(0).u(0).u(s).raw(&body.0), b"")
                }
                _ => {
                    let s = any_u32();
                    assume(s > 1);
                    (x().u(xid).u(1).u(s).u(0).u(0).u(0).raw(&body.0), b"")
                }
            };
            let mut name = name.to_vec();
            if name.ends_with(b"Missmatch") {
                name.extend_from_slice(range.as_bytes());
                if choice(2) == 1 {
                    // cut inside the range
                    peer.answer(&r.0[..r.0.len() - 1 - choice(8)]);
                    let g = take_got();
                    check(g.len() == 1, "a call does not return after its reply");
                    if let Some(Got::Err(e)) = g.get(0) {
                        check(!e.ends_with(b"Missmatch") && !e.contains(&b' '), "a call reports data that the reply does not contain");
                    } else {
                        fail("a rejected call is reported as a success")
                    }
                    return;
                }
            } else if lo != 0 || hi != 1 {
                prune()
            }
            peer.answer(&r.0);
            cover(2);
            check_got(if name.is_empty() { None } else { Some(Got::Err(name)) }, "a rejected call is reported as a success");
        }
        2 => {
            // truncated
            let r = reply_ok(xid, body.clone());
            let n = choice(r.len() - 1) + 1;
            if n == 24 && op == 0 {
                prune()
            }
            peer.answer(&r[..n]);
            cover(3);
            check_got(None, "");
        }
        3 => {
            // not a reply at all
            peer.answer(&call_msg(xid, PMAP, 2, 0, &any_vec(4)));
            let g = take_got();
            check(g.len() <= 1 && g.iter().all(|g| matches!(g, Got::Err(_))), "a message that is no reply is returned as a success");
        }
        _ => {
            // the stream ends, inside or before the reply; or nothing comes
            if udp {
                prune()
            }
            let r = rec(&reply_ok(xid, body.clone()));
            let n = choice(r.len());
            let s = peer.s.as_ref().unwrap();
            s.put(&r[..n]);
            sim::run();
            check(take_got().is_empty(), "a call returns before its reply is complete");
            s.s.sim_close();
            sim::run();
            // the next call fails as well
            let g = take_got();
            check(g.len() == 2 && matches!(g[0], Got::Err(_)) && matches!(g[1], Got::Err(_)), "a call does not fail when the stream ends");
        }
    }
}
/// Any reply bytes: no crash, and no value that was not in a successful reply.
fn p02_bytes(lens: &[usize]) {
    let udp = choice(2) == 1;
    let op = choice(5);
    let (m, a) = (any_map(), any_u32());
    let mut peer = client(udp, vec![op], m, a);
    let c = peer.calls();
    if c.len() != 1 {
        fail("the client does not send exactly one call");
        return;
    }
    let xid = rd(&c[0], 0);
    let n = lens[choice(lens.len())];
    let mut b = any_vec(n);
    if n >= 24 {
        // (cases that cover all lengths of the verifier)
        let v = choice(n - 24 + 2) as u32;
        if v == n as u32 - 23 {
            assume(rd(&b, 16) >= v);
        } else {
            b[16..20].copy_from_slice(&v.to_be_bytes());
        }
    }
    peer.answer(&b);
    let g = take_got();
    check(g.len() <= 1, "a call returns twice");
    if g.is_empty() {
        // only the reply to another call is ignored
        check(n >= 4 && rd(&b, 0) != xid, "a nonsensical reply makes the call hang");
        return;
    }
    if let Got::Err(_) = g[0] {
        cover(1);
        return;
    }
    cover(2);
    // a value: the bytes are an accepted, successful reply with a short verifier
    check(n >= 24 && rd(&b, 0) == xid && rd(&b, 4) == 1 && rd(&b, 8) == 0, "something that is not a successful reply is returned as one");
    if n < 24 {
        return;
    }
    let vl = concrete(rd(&b, 16) as u64) as usize;
    let at = 24 + (vl + 3) / 4 * 4;
    check(n >= at && rd(&b, at - 4) == 0, "something that is not a successful reply is returned as one");
    if n < at {
        return;
    }
    let w = want_value(op, &b[at..]);
    got(g[0].clone());
    check_got(w, "a call returns data that the reply did not contain");
}
fn h_p02_bytes() {
    p02_bytes(&[0, 3, 4, 8, 12, 20, 24, 28, 36])
}
fn h_p02_bytes_t() {
    p02_bytes(&[0, 1, 3, 4, 7, 8, 11, 12, 16, 19, 20, 23, 24, 25, 27, 28, 31, 32, 36, 40])
}
/// `register` replaces whatever was registered.
fn h_p02_register() {
    let udp = choice(2) == 1;
    let m = any_map();
    let mut peer = client(udp, vec![5], m, 0);
    let c = peer.calls();
    if c.len() != 1 {
        fail("the client does not send exactly one call");
        return;
    }
    let xid = check_call(&c[0], 2, &a_map(m.prog, m.vers, m.prot, m.port));
    if choice(3) == 0 {
        peer.answer(&x().u(xid).u(1).u(0).u(0).u(0).u(3).0);
        check_got(Some(Got::Err(b"ProcUnavail".to_vec())), "a rejected call is reported as a success");
        return;
    }
    peer.answer(&reply_ok(xid, x().u(choice(2) as u32)));
    let c = peer.calls();
    if c.len() != 1 {
        fail("a mapping that was not registered before is not registered");
        return;
    }
    let xid = check_call(&c[0], 1, &a_map(m.prog, m.vers, m.prot, m.port));
    let yes = choice(2) == 1;
    peer.answer(&reply_ok(xid, x().u(yes as u32)));
    cover(1 + yes as u32);
    let g = take_got();
    check(g.len() == 1, "a call does not return after its reply");
    if g.len() == 1 {
        check(matches!(g[0], Got::Unit) == yes, "registering does not report what the server answered");
    }
}

// ------------------------------------------------------ long and many ----

fn pattern(n: usize, from: u8) -> Vec<u8> {
    (0..n).map(|i| from + (i % 23) as u8).collect()
}
/// Everything the server sends, also while its writes wait for the client.
fn drain(c: &Conn) {
    let mut all: Vec<u8> = Vec::new();
    loop {
        sim::run();
        let t = c.s.sim_take();
        if t.is_empty() {
            break;
        }
        all.extend(t);
    }
    ALL.with(|a| *a = all);
}
static ALL: Global<Vec<u8>> = Global::new(Vec::new());
/// What `drain` collected, as seen by a client.
fn drained(c: &Conn) -> Conn {
    drain(c);
    let (x, y) = sim::pipe_pair();
    y.sim_feed(&ALL.with(std::mem::take));
    Conn { s: x, xid: Cell::new(c.xid.get()), prog: c.prog }
}
/// A record in fragments of at most `f` bytes.
fn frags(b: &[u8], f: usize) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    while i + f < b.len() {
        v.extend((f as u32).to_be_bytes());
        v.extend_from_slice(&b[i..i + f]);
        i += f;
    }
    v.extend(rec(&b[i..]));
    v
}
/// Program messages of every size, in one write or many, each in few or many
/// fragments, up to the advertised maximum.
fn h_v04_long() {
    let _env = start();
    dev::set_respond(no_response);
    let c = Conn::core();
    let lid = c.link(0);
    let n = [127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, MAX_RECV as usize, 200_000][choice(12)];
    let w = [1000, 256, 65536, MAX_RECV as usize][choice(4)];
    let f = [usize::MAX, 1, 255, 256, 65536][choice(5)];
    if f == 1 && n > 1000 {
        prune()
    }
    let mut d = pattern(n, b'A');
    d[[0, n / 2, n - 1][choice(3)]] = any_u8();
    let whole = choice(2) == 1;
    let parts: Vec<&[u8]> = d.chunks(w).collect();
    for (i, p) in parts.iter().enumerate() {
        let last = i + 1 == parts.len();
        let xid = c.xid.get() + 1;
        c.xid.set(xid);
        let m = call_msg(xid, CORE, 1, WRITE, &a_write(lid, 0, if last { END } else { 0 }, p).0);
        let b = frags(&m, f);
        if whole {
            c.put(&b);
        } else {
            for q in b.chunks(5000) {
                c.put(q);
                sim::run();
            }
        }
        sim::run();
        let (e, k) = write_resp(&c.recv("device_write is not answered"));
        check(e == E_OK, "a write on a free device fails");
        check(k as usize == p.len(), "a write does not report the number of bytes it accepted");
        check(last || dev::log_len() == 0, "a program message is executed before its end");
    }
    cover(1);
    expect_execs(&[d], "the device does not execute exactly the data that was written");
    let (e, _) = c.write(lid, END, b"next");
    check(e == E_OK, "a write on a free device fails");
    expect_execs(&[b"next".to_vec()], "the device does not execute exactly the data that was written");
}
/// Long responses read with every kind of size.
fn h_v05_long() {
    let _env = start();
    dev::set_respond(given_resp);
    let c = Conn::core();
    let lid = c.link(0);
    let n = [127, 128, 255, 256, 257, 4096, 65535, 65536, 65537, 131072, 131073, 300_000][choice(12)];
    let mut r = pattern(n, b'a');
    let x = any_u8();
    let at = [0, n / 2, n - 1][choice(3)];
    r[at] = x;
    RESP.with(|l| *l = Some(r.clone()));
    let (e, _) = c.write(lid, END, b"q");
    check(e == E_OK, "a write on a free device fails");
    RESP.with(|l| *l = None);
    let size = [1000, 256, 65535, 65536, 65537, n as u32 - 1, n as u32, n as u32 + 1, 0x8000_0000, u32::MAX][choice(10)];
    if n > 10_000 && size <= 1000 {
        prune()
    }
    // a term char that is none of the pattern's letters
    let tc = choice(2) == 1;
    let term = any_u8();
    assume(!(term >= b'a' && term <= b'z'));
    let slow = choice(2) == 1;
    let mut got = Vec::new();
    for _ in 0..2000 {
        if slow {
            c.s.sim_limit_peer_writes(3, 5000);
        }
        c.send(READ, a_read(lid, size, 0, if tc { TERM } else { 0 }, term as u32));
        let (e, reason, data) = read_resp(&drained(&c).recv("device_read is not answered"));
        check(e == E_OK, "a read on a free device fails");
        check(data.len() as u64 <= size as u64, "a read returns more than the requested size");
        got.extend_from_slice(&data);
        if got.len() > n {
            break;
        }
        let full = data.len() as u64 == size as u64;
        let end = got.len() == n;
        let chr = tc && at < got.len() && at + 1 == got.len() && x == term;
        check(reason == full as u32 | (chr as u32) << 1 | (end as u32) << 2, "the reason of a read does not say why it ended");
        check(full || chr || end, "a read returns less than is there and was asked for");
        if end {
            break;
        }
    }
    cover(1);
    check_eq(&got, &r, "response bytes are lost, duplicated or reordered");
}
/// Many links on few connections.
fn h_v03_many() {
    let env = start();
    dev::set_respond(|c| Some(c.to_vec()));
    let ac = Conn::abort();
    let cs = [Conn::core(), Conn::core()];
    let n = [3, 17, 40, 130, 300][choice(5)];
    let mut lids: Vec<u32> = Vec::new();
    for i in 0..n {
        let l = cs[i % 2].link(i / 2 % 2);
        check(lids.iter().all(|k| *k != l), "two live links have the same id");
        lids.push(l);
    }
    // each has its own data
    let v = any_u8();
    for (i, l) in lids.iter().enumerate() {
        let (e, _) = cs[i % 2].write(*l, 0, &[v, i as u8]);
        check(e == E_OK, "a write on a free device fails");
    }
    check(dev::log_len() == 0, "a program message is executed before its end");
    // some go
    let step = [2, 3, n][choice(3)];
    for i in (0..n).step_by(step) {
        check(cs[i % 2].destroy(lids[i]) == E_OK, "a live link cannot be destroyed");
    }
    for (i, l) in lids.iter().enumerate() {
        let (e, _) = cs[i % 2].write(*l, END, b"!");
        check(ac.do_abort(*l) == if i % step == 0 { E_LID } else { E_OK }, "the abort channel knows other links than the live ones");
        if i % step == 0 {
            check(e == E_LID, "a link that was destroyed is still valid");
        } else {
            check(e == E_OK, "a write on a free device fails");
            expect_execs(&[vec![v, i as u8, b'!']], "the device does not execute exactly the data that was written");
            check(take_which() == [(i / 2 % 2) as u8], "a link operates another device than the one it was created for");
            let (e, _, d) = cs[i % 2].read(*l, 100, 0, 0);
            check(e == E_OK, "a read on a free device fails");
            check_eq(&d, &[v, i as u8, b'!'], "a link returns data that is not its own");
        }
    }
    // new links are new
    for i in 0..5 {
        let l = cs[i % 2].link(0);
        check(lids.iter().enumerate().all(|(j, k)| j % step == 0 || *k != l), "two live links have the same id");
        lids.push(l);
        if (lids.len() - 1) % step == 0 {
            break;
        }
    }
    cs[0].s.sim_close();
    sim::run();
    for i in 0..n {
        let e = ac.do_abort(lids[i]);
        check(e == if i % 2 == 0 || i % step == 0 { E_LID } else { E_OK }, "the abort channel knows other links than the live ones");
    }
    cover(1);
    all_free(&env, "locks appear from nowhere");
}
/// Many wait for the same device.
fn h_v07_many() {
    let env = start();
    dev::set_respond(no_response);
    let n = [3, 6, 9][choice(3)];
    let cs: Vec<Conn> = (0..n).map(|_| Conn::core()).collect();
    let lids: Vec<u32> = cs.iter().map(|c| c.link(0)).collect();
    let mut o = env.other(0);
    let key: &[u8] = [&b""[..], b"k"][choice(2)];
    check(o.try_acquire(key).is_ok(), "harness: lock");
    // operations, and one lock request somewhere among them, or only locks
    let locker = [n, 0, n / 2, n - 1][choice(4)];
    let all_lock = choice(2) == 1;
    let t = 100_000;
    for i in 0..n {
        if all_lock || i == locker {
            cs[i].send(LOCK, x().u(lids[i]).u(WAIT).u(t));
        } else {
            cs[i].send(WRITE, a_write(lids[i], t, WAIT | END, &[i as u8]));
        }
        sim::run();
        check(cs[i].idle(), "an operation that must wait is answered at once");
    }
    check(dev::log_len() == 0, "a refused operation has an effect on the device");
    if choice(2) == 0 {
        o.force_release();
    } else {
        drop(std::mem::replace(&mut o, env.other(0)));
    }
    let mut left: Vec<usize> = (0..n).collect();
    let mut holder: Option<usize> = None;
    while !left.is_empty() {
        sim::run();
        let done: Vec<usize> = left.iter().copied().filter(|i| !cs[*i].idle()).collect();
        if done.is_empty() {
            // only the holder of the lock may be in the way
            match holder.take() {
                Some(h) => {
                    check(cs[h].unlock(lids[h]) == E_OK, "unlock does not report whether there was a lock");
                    continue;
                }
                None => {
                    fail("a waiting operation does not complete when it is permitted");
                    return;
                }
            }
        }
        for i in done {
            check(first_err(&cs[i], "a waiting operation is not answered properly") == E_OK, "a waiting operation fails before its timeout");
            if all_lock || i == locker {
                check(holder.is_none(), "two links hold the lock");
                holder = Some(i);
            }
            left.retain(|k| *k != i);
        }
    }
    cover(1);
    let ex = dev::execs();
    for i in 0..n {
        let k = ex.iter().filter(|c| c.len() == 1 && c[0] == i as u8).count();
        check(k == !(all_lock || i == locker) as usize, "an operation does not have its effect exactly once");
    }
    if let Some(h) = holder {
        check(o.lock_info() == (true, 0), "the lock of the device is not what was reported");
        check(cs[h].unlock(lids[h]) == E_OK, "unlock does not report whether there was a lock");
    }
    check(o.lock_info() == (false, 0), "the lock of the device is not what was reported");
    check(sim::timers_pending() == 0 || !sim::fire_timer() || { sim::run(); cs.iter().all(|c| c.idle()) }, "an operation is answered twice");
}
/// Locked and unlocked again and again; waits end by lock, timeout or abort.
fn h_v08_many() {
    let env = start();
    dev::set_respond(no_response);
    let c = Conn::core();
    let ac = Conn::abort();
    let lid = c.link(0);
    let mut o = env.other(0);
    let t = [1, 1000, u32::MAX][choice(3)];
    for i in 0..60 {
        check(o.try_acquire(b"").is_ok(), "a lock remains that was not granted or was given back");
        let lock = i % 2 == 0;
        if lock {
            c.send(LOCK, x().u(lid).u(WAIT).u(t));
        } else {
            c.send(WRITE, a_write(lid, t, WAIT | END, b"w"));
        }
        sim::run();
        check(c.idle(), "an operation that must wait is answered at once");
        let mut ok = false;
        match i % 3 {
            0 => {
                check(ac.do_abort(lid) == E_OK, "an abort for a live link fails");
                check(first_err(&c, "an operation that is waiting is not answered when it is aborted") == E_ABORT, "an aborted operation is not answered with the abort error");
                if i % 4 == 0 {
                    // nothing waits now
                    check(ac.do_abort(lid) == E_OK, "an abort for a live link fails");
                }
            }
            1 => {
                sim::fire_timer();
                sim::run();
                check(first_err(&c, "an operation that timed out is not answered") == E_LOCKED, "an operation that timed out is not answered with the locked-by-another-link error");
            }
            _ => {
                o.force_release();
                sim::run();
                check(first_err(&c, "a waiting operation is not answered when the lock is gone") == E_OK, "a waiting operation fails");
                ok = true;
            }
        }
        o.force_release();
        sim::run();
        check(c.idle(), "an operation is answered twice");
        if ok && lock {
            check(o.lock_info() == (true, 0), "the lock of the device is not what was reported");
            check(c.unlock(lid) == E_OK, "unlock does not report whether there was a lock");
        }
        check(dev::take_log().len() == (ok && !lock) as usize, "an operation does not have its effect exactly once");
        check(o.lock_info() == (false, 0), "the lock of the device is not what was reported");
    }
    cover(1);
}
/// Many links with service requests, many signals.
fn h_v09_many() {
    let mut env = start();
    acceptor(9000);
    let c = Conn::core();
    let n = [1, 2, 9, 33][choice(4)];
    let lids: Vec<u32> = (0..n).map(|i| c.link(i % 2)).collect();
    let (e, ch) = make_intr(&c, 9000);
    check(e == E_OK, "an interrupt channel cannot be created");
    // handles of any length up to the limit of the protocol
    let v = any_u8();
    let hs: Vec<Vec<u8>> = (0..n).map(|i| vec![v.wrapping_add(i as u8); if i == 0 { 40 } else { i % 41 }]).collect();
    for i in 0..n {
        check(c.enable(lids[i], true, b"old") == E_OK, "service requests cannot be enabled");
        check(c.enable(lids[i], true, &hs[i]) == E_OK, "service requests cannot be enabled");
    }
    let off = [n, 0, n / 2, n - 1][choice(4)];
    let rounds = if n > 2 { 6 } else { 150 };
    for r in 0..rounds {
        if r == 3 && off < n {
            check(c.enable(lids[off], false, b"") == E_OK, "service requests cannot be disabled");
        }
        env.srq.send_status(r as u8);
        sim::run();
        let mut got = ch.calls();
        for i in 0..n {
            if r >= 3 && i == off {
                continue;
            }
            match got.iter().position(|g| g.len() == hs[i].len() && bytes_eq(g, &hs[i])) {
                Some(k) => {
                    got.swap_remove(k);
                }
                None => fail("a status signal does not lead to exactly one interrupt call per enabled link"),
            }
        }
        check(got.is_empty(), "a status signal does not lead to exactly one interrupt call per enabled link");
    }
    cover(1);
}
/// Many calls on one connection to each service.
fn h_v01_many() {
    let _env = start();
    start_pmap(some_map());
    let k = choice(3);
    let (c, vers) = service(k);
    let first = any_u32();
    let n = 600u32;
    let mode = choice(3);
    let mut b = Vec::new();
    for i in 0..n {
        let xid = first.wrapping_add(i);
        // every seventh is refused
        let proc = if i % 7 == 3 { 4711 } else { 0 };
        let m = rec(&call_msg(xid, c.prog, vers, proc, &[]));
        if mode == 0 {
            c.put(&m);
            sim::run();
        } else {
            b.extend(m);
        }
    }
    if mode == 2 {
        c.s.sim_limit_peer_writes(1, 1000);
    }
    if mode > 0 {
        c.put(&b);
    }
    let rs = drained(&c).replies();
    check(rs.len() == n as usize, "a call is not answered exactly once");
    for (i, r) in rs.iter().enumerate() {
        check(r.xid == first.wrapping_add(i as u32), "a reply does not carry the transaction id of its call");
        check(r.stat == if i % 7 == 3 { Stat::ProcUnavail } else { Stat::Ok }, "a call is not answered with the right status");
    }
    cover(1);
    check(!c.closed(), "a connection is closed while its client uses it");
}
/// A port mapper with many mappings, on both transports at one address.
fn h_p01_many() {
    const N: usize = 130;
    let mut ms = [Mapping::new(1, 1, 6, 9); N];
    for i in 0..N {
        ms[i] = Mapping::new(1000 + (i as u32 % 100), 1, [6, 17][i / 100], i as u32);
    }
    let k = [0, 63, 99, 100, N - 1][choice(5)];
    let m = any_map();
    assume(m.prog > 2000);
    ms[k] = m;
    sim::spawn_any(async move {
        let _ = StaticPortMap::new(ms).bind(("127.0.0.1", PMAP_PORT)).await;
    });
    sim::run();
    let udp = choice(2) == 1;
    let c = if udp { None } else { Some(Conn::open(PMAP_PORT, PMAP)) };
    if let Some(b) = pmap_call(udp, &c, 3, &a_map(m.prog, m.vers, m.prot, 0)) {
        check(b.len() == 4 && rd(&b, 0) == m.port, "a port query is not answered with the first matching mapping");
    }
    for i in [0, 50, 99, 105, N - 1] {
        let q = Mapping::new(1000 + (i as u32 % 100), 1, [6, 17][i / 100], 0);
        if let Some(b) = pmap_call(udp, &c, 3, &a_map(q.prog, q.vers, q.prot, 0)) {
            check(b.len() == 4 && rd(&b, 0) == if i == k { 0 } else { i as u32 }, "a port query is not answered with the first matching mapping");
        }
    }
    if let Some(b) = pmap_call(udp, &c, 4, &x()) {
        let mut w = x();
        for m in &ms {
            w = w.u(1).u(m.prog).u(m.vers).u(m.prot).u(m.port);
        }
        w = w.u(0);
        check_eq(&b, &w.0, "a dump does not return exactly the registered mappings in order");
    }
    cover(1);
}

entries!(
    h_v04_long, h_v05_long, h_v09_two, h_v09_slow, h_p02_many, h_v02_slow, h_v03_many, h_v07_many, h_v08_many, h_v09_many, h_v01_many, h_p01_many,
    h_v01_q, h_v01_auth, h_v01_two, h_v01_args,
    h_v02_frag, h_v02_cut, h_v02_len, h_v02_sum, h_v02_opaque, h_v02_bytes, h_v02_bytes_t, h_v02_accept,
    h_v03_q, h_v03_t, h_v03_lock, h_v03_ops,
    h_v04_q, h_v04_t, h_v04_wait,
    h_v05_q, h_v05_t,
    h_v06_q, h_v06_t,
    h_v07_q, h_v07_t, h_v07_ops, h_v07_busy,
    h_v08_q, h_v08_t, h_v08_ops,
    h_v09_q, h_v09_t, h_v09_broken,
    h_v10_bind, h_v10_register,
    h_v02_turns, h_v03_memory,
    h_p01_query, h_p01_udp, h_p01_udp_t, h_p01_hdr,
    h_p02_reply, h_p02_bytes, h_p02_bytes_t, h_p02_register,
);
