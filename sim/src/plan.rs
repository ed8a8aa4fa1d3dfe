//! A plan is a complete simulated execution: operations, faults, crash points
//! and the schedule.  A run is a pure function of its plan.
use crate::sched::SchedSpec;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Hx(pub Vec<u8>);

impl std::fmt::Debug for Hx {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "x{}", hex(&self.0))
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok())
        .collect()
}
impl Serialize for Hx {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for Hx {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Hx, D::Error> {
        let s = String::deserialize(d)?;
        unhex(&s)
            .map(Hx)
            .ok_or_else(|| serde::de::Error::custom("bad hex"))
    }
}
impl From<&[u8]> for Hx {
    fn from(b: &[u8]) -> Hx {
        Hx(b.to_vec())
    }
}
impl From<&str> for Hx {
    fn from(b: &str) -> Hx {
        Hx(b.as_bytes().to_vec())
    }
}

/// attribute value
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum AV {
    B(bool),
    U(u64),
    X(Hx),
    L(Vec<u64>),
}
impl AV {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            AV::B(b) => vec![*b as u8],
            AV::U(u) => u.to_ne_bytes().to_vec(),
            AV::X(h) => h.0.clone(),
            AV::L(v) => v.iter().flat_map(|x| x.to_ne_bytes()).collect(),
        }
    }
}
pub type Tmpl = Vec<(u64, AV)>;

pub fn x(s: &str) -> AV {
    AV::X(s.into())
}
pub fn xb(s: &[u8]) -> AV {
    AV::X(s.into())
}

/// variable: number of a session, object or saved-state slot; values from RAW
/// up stand for a literal handle
pub type V = u32;
pub const RAW: V = 1_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Fun {
    Enc,
    Dec,
    Dig,
    Sig,
    Ver,
}

/// mechanism with its parameter
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Mech {
    pub m: u64,
    pub p: Par,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Par {
    None,
    /// raw parameter bytes (an IV for instance)
    Raw(Hx),
    Ulong(u64),
    Gcm { iv: Hx, aad: Hx, taglen: u64 },
    Ccm { len: u64, nonce: Hx, aad: Hx, maclen: u64 },
    Ctr { bits: u64, cb: Hx },
    Oaep { hash: u64, mgf: u64 },
    Pss { hash: u64, mgf: u64, salt: u64 },
    /// HKDF params: (hash, salt, info)
    Hkdf { hash: u64, salt: Hx, info: Hx },
    Ecdh { kdf: u64, point_of: V },
    /// KEY_DERIVATION_STRING_DATA
    Kds(Hx),
    /// PBKDF2: (salt, iterations, password)
    Pbkdf2 { salt: Hx, it: u64, pw: Hx },
}

/// parameters of a message
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct MsgPar {
    pub ccm: bool,
    /// the buffer of the message before this one is handed in again as it is
    pub keep: bool,
    pub iv: Hx,
    pub fixed: u64,
    pub gen_: u64,
    pub tag: u64,
    /// CCM: length of all data
    pub len: u64,
}

/// a message as the caller has it
#[derive(Clone, Default, Debug)]
pub struct MsgRec {
    pub iv: Vec<u8>,
    pub tag: Vec<u8>,
    pub ct: Vec<u8>,
}

/// how an output buffer is offered
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Buf {
    /// null pointer: only asks for the length
    Query,
    /// this many bytes
    Len(u32),
    /// ask for the length first, then offer exactly that
    Exact,
    /// 64 KiB
    Big,
    /// this many bytes, and if they are too few, 64 KiB
    Retry(u32),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Op {
    Init { conf: String },
    Fini,
    Open { slot: u64, rw: bool, s: V },
    Close { s: V },
    CloseAll { slot: u64 },
    SInfo { s: V },
    TInfo { slot: u64 },
    Login { s: V, u: u64, pin: String },
    Logout { s: V },
    InitToken { slot: u64, pin: String, label: String },
    InitPin { s: V, pin: String },
    SetPin { s: V, old: String, new: String },
    Create { s: V, o: V, t: Tmpl },
    Copy { s: V, from: V, o: V, t: Tmpl },
    Destroy { s: V, o: V },
    Get { s: V, o: V, a: Vec<u64> },
    Set { s: V, o: V, t: Tmpl },
    Size { s: V, o: V },
    /// search as FindInit, FindObjects in chunks, FindFinal
    Find { s: V, t: Tmpl, chunk: u32 },
    FindInit { s: V, t: Tmpl },
    FindNext { s: V, n: u32 },
    FindFinal { s: V },
    /// find the one object matching t and bind it
    Locate { s: V, o: V, t: Tmpl },
    /// search with t and read the attributes of each object found
    Audit { s: V, t: Tmpl },
    GenKey { s: V, o: V, m: Mech, t: Tmpl },
    GenPair { s: V, o: V, o2: V, m: Mech, t: Tmpl, t2: Tmpl },
    Wrap { s: V, m: Mech, k: V, o: V, b: V },
    Unwrap { s: V, m: Mech, k: V, b: V, o: V, t: Tmpl },
    Derive { s: V, m: Mech, k: V, o: V, t: Tmpl },
    KInit { s: V, f: Fun, m: Mech, o: V },
    KOne { s: V, f: Fun, d: Hx, sig: Hx, b: Buf },
    KUpd { s: V, f: Fun, d: Hx, b: Buf },
    KFin { s: V, f: Fun, sig: Hx, b: Buf },
    /// input from blob variable v, damaged as flip says (see p11::damaged)
    KUpdB { s: V, f: Fun, v: V, at: u32, n: u32, flip: u32, b: Buf },
    /// decryption of blob v, or verification of d with signature v
    KOneB { s: V, f: Fun, d: Hx, v: V, flip: u32, b: Buf },
    /// end of a verification with signature v
    KFinB { s: V, v: V, flip: u32 },
    /// KFin that keeps its output as blob variable v
    KFinS { s: V, f: Fun, v: V, b: Buf },
    /// two functions at once: 0 digest+encrypt, 1 decrypt+digest, 2 sign+encrypt,
    /// 3 decrypt+verify
    Dual { s: V, k: u8, d: Hx, b: Buf },
    DualB { s: V, k: u8, v: V, at: u32, n: u32, b: Buf },
    DigestKey { s: V, o: V },
    /// KOne with the input taken from blob variable `v` (result of an op with
    /// the same variable)
    UseBlob { s: V, f: Fun, v: V, d: Hx, b: Buf },
    /// KOne that keeps its output as blob variable v
    KSave { s: V, f: Fun, d: Hx, v: V },
    /// use the object in a way that shows whether its secret is intact: the
    /// output is a function of the key only
    Probe { s: V, o: V },
    /// message-based encryption (AEAD with generated IV)
    MsgInit { s: V, f: Fun, m: Mech, o: V },
    /// how: 0 whole message, 1 begin, 2 part, 3 last part; to decrypt, the
    /// input is at..at+n of message src, damaged as flip says
    Msg { s: V, f: Fun, how: u8, v: V, p: MsgPar, aad: Hx, d: Hx, src: V, at: u32, n: u32, flip: u32, b: Buf },
    MsgFinal { s: V, f: Fun },
    SaveSt { s: V, v: V, b: Buf },
    RestSt { s: V, v: V, mutate: u64 },
    Cancel { s: V, flags: u64 },
    Random { s: V, n: u32 },
    Seed { s: V, d: Hx },
    SlotList,
    MechList { slot: u64 },
    MechInfo { slot: u64, m: u64 },
    /// hotp signature / verification in one op: SignInit + Sign
    Otp { s: V, o: V, how: u8 },
    OtpVer { s: V, o: V, d: Hx, how: u8 },
    /// only the second halves of these
    OtpEnd { s: V, how: u8 },
    OtpVerEnd { s: V, d: Hx, how: u8 },
    /// raw call with odd but valid arguments, see p11.rs
    Odd { s: V, o: V, k: u32 },
    /// function k with arguments drawn from the seed, see wild.rs
    Wild { s: V, o: Vec<V>, out: V, t: Tmpl, k: u32, slot: u64, seed: u64 },
    /// look for a byte string in every file of the simulated disk
    Nop,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct OpRec {
    pub id: u32,
    pub op: Op,
    /// the result must not fail when no fault is planned
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub must: bool,
    /// scenario-specific tag
    #[serde(default, skip_serializing_if = "is0")]
    pub tag: i64,
}
fn is0(x: &i64) -> bool {
    *x == 0
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Io {
    Read = 0,
    Write,
    Trunc,
    Sync,
    Open,
    Delete,
    Lock,
    /// any of write, truncate, sync, delete, open-for-create: the events that
    /// change what is on disk
    Change,
    Any,
    /// uses of the random source
    Rng,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum FaultKind {
    IoErr,
    Full,
    /// another process holds the database for so many simulated ms
    Busy(u64),
    RngFail,
    /// the process dies here
    Kill,
    /// the machine loses power here
    Power,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Fault {
    /// armed when this operation starts
    pub op: u32,
    pub io: Io,
    /// fires at the nth matching event from then on (0-based)
    pub nth: u32,
    pub kind: FaultKind,
    /// and at the following ones, this many in all
    pub count: u32,
    /// only while the operation runs
    #[serde(default)]
    pub only: bool,
    /// restrict to files whose name contains this
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub file: String,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Tamper {
    /// flip one bit of / cut a stored blob chosen by seed (sqlite object store)
    Blob { db: String, seed: u64 },
    /// damage a user record (sqlite object store): "SO" or "USER"
    User { db: String, who: String, seed: u64 },
    /// swap two stored blobs
    Swap { db: String, seed: u64 },
    /// exchange the records of the two users
    Users { db: String },
    /// NSS: damage the password entry
    Pass { dir: String, seed: u64 },
    /// NSS: damage an authenticated attribute and its signature
    Nss { dir: String, seed: u64 },
    /// flip bytes of the raw file
    Raw { file: String, seed: u64, n: u32 },
    /// remove the tail of the file
    Cut { file: String, seed: u64 },
    /// sql statement
    Sql { db: String, q: String },
    /// NSS: columns that hold nothing are removed, as in databases made before
    /// these attributes existed
    Old { dir: String, seed: u64 },
    /// nothing is changed: notes what every stored ciphertext was made with
    Scan,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Inc {
    /// changes of the stored bytes while the library is down
    #[serde(default)]
    pub tamper: Vec<Tamper>,
    pub pre: Vec<OpRec>,
    pub clients: Vec<Vec<OpRec>>,
    pub post: Vec<OpRec>,
    #[serde(default)]
    pub faults: Vec<Fault>,
    /// at the end: false = the process just dies, true = C_Finalize was an op
    /// of post; power: lose un-synced data as well
    #[serde(default)]
    pub end_power: bool,
    pub sched: SchedSpec,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Plan {
    pub prop: String,
    pub scen: String,
    pub seed: u64,
    /// template image the first incarnation starts from
    pub image: String,
    /// scenario knobs, for the judge
    #[serde(default)]
    pub knobs: BTreeMap<String, i64>,
    /// byte strings that must not reach the disk (name, value)
    #[serde(default)]
    pub secrets: Vec<(String, Hx)>,
    /// journal deletions survive a power loss only if the directory was synced
    #[serde(default)]
    pub lazy_unlink: bool,
    pub incs: Vec<Inc>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq, Eq, Hash)]
pub struct Res {
    pub rv: u64,
    /// handles returned
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub h: Vec<u64>,
    /// attributes read: type, value (None: CK_UNAVAILABLE_INFORMATION)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub a: Vec<(u64, Option<Hx>)>,
    /// output bytes
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub out: Option<Hx>,
    /// numbers (infos, lengths, inner return codes)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub n: Vec<u64>,
    /// audits: handle and attributes of every object
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub objs: Vec<(u64, u64, Vec<(u64, Option<Hx>)>)>,
}
/// result of an op whose variables were not bound: it was not executed
pub const SKIP: u64 = 0xffff_0001;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    Inv { c: u32, id: u32 },
    Ret { c: u32, id: u32, r: Res },
    Fault { id: u32, io: Io, kind: FaultKind, file: String },
    /// handle numbers op's variables resolved to, for the judge
    Vars { id: u32, v: Vec<u64> },
    Note { s: String },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Status {
    Running,
    Done,
    Killed,
    PowerLost,
    Deadlock(String),
    Livelock,
    Signal(i32),
    Exit(i32),
    Timeout,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Meta {
    pub pre: Vec<(u64, u32)>,
    pub choices: Vec<u32>,
    pub hash: u64,
    pub switches: u64,
    pub blocks: u64,
    pub now: u64,
    pub edges: u64,
    pub fs: crate::simfs::FsStats,
    pub rng_calls: u64,
    pub leaks: Vec<String>,
    pub rand_dups: Vec<String>,
    pub npreempt: u64,
}

#[derive(Clone, Debug)]
pub struct IncOut {
    pub status: Status,
    pub ev: Vec<Ev>,
    pub meta: Meta,
}

impl IncOut {
    /// (op id, result if it returned) in order of invocation
    pub fn calls(&self) -> Vec<Call> {
        let mut v: Vec<Call> = Vec::new();
        let mut ix: std::collections::HashMap<u32, usize> = Default::default();
        for (n, e) in self.ev.iter().enumerate() {
            match e {
                Ev::Inv { c, id } => {
                    ix.insert(*id, v.len());
                    v.push(Call {
                        c: *c,
                        id: *id,
                        inv: n,
                        ret: usize::MAX,
                        res: None,
                        vars: vec![],
                        fault: false,
                    });
                }
                Ev::Ret { id, r, .. } => {
                    if let Some(i) = ix.get(id) {
                        v[*i].ret = n;
                        v[*i].res = Some(r.clone());
                    }
                }
                Ev::Vars { id, v: vv } => {
                    if let Some(i) = ix.get(id) {
                        v[*i].vars = vv.clone();
                    }
                }
                Ev::Fault { id, .. } => {
                    if let Some(i) = ix.get(id) {
                        v[*i].fault = true;
                    }
                }
                _ => {}
            }
        }
        v
    }
    pub fn faults(&self) -> usize {
        self.ev
            .iter()
            .filter(|e| matches!(e, Ev::Fault { .. }))
            .count()
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub c: u32,
    pub id: u32,
    pub inv: usize,
    pub ret: usize,
    pub res: Option<Res>,
    pub vars: Vec<u64>,
    pub fault: bool,
}

impl Plan {
    pub fn ops(&self) -> std::collections::HashMap<u32, &OpRec> {
        let mut m = std::collections::HashMap::new();
        for i in &self.incs {
            for o in i.pre.iter().chain(i.clients.iter().flatten()).chain(&i.post) {
                m.insert(o.id, o);
            }
        }
        m
    }
    pub fn nops(&self) -> usize {
        self.incs
            .iter()
            .map(|i| i.pre.len() + i.post.len() + i.clients.iter().map(|c| c.len()).sum::<usize>())
            .sum()
    }
}
