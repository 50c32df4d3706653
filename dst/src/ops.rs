//! The vocabulary of a simulated run: configuration and steps. Both are plain data, so that a run can be
//! written to a replay file, minimised and executed again exactly.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MemSpec {
    /// a memory of the same manager (rolled back and restarted with it)
    Managed(u8),
    /// a separate memory owned by the embedder
    Separate,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Base {
    Fresh,
    /// image written by the layout of earlier versions; `modern`: the same tree built through the API instead
    Legacy { seed: u64, modern: bool },
    /// image committed in golden/
    Golden { name: String, modern: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FsConfig {
    pub transient: bool,
    /// StableStorage::new(memory) instead of new_with_memory_manager
    pub own_manager: bool,
    pub start: u8,
    pub range_len: u8,
    /// chunk size chosen before first use (None: default)
    pub chunk_size: Option<u32>,
    pub v1: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Config {
    pub fss: Vec<FsConfig>,
    pub bucket: u16,
    pub hash_seed: u64,
    pub mems: Vec<MemSpec>,
    /// memory ids of other users of the same manager
    pub cotenants: Vec<u8>,
    pub base: Base,
    /// audit with a shadow file system after every step that changed something
    pub shadow_every: bool,
    /// audit after every failed call
    pub audit_failures: bool,
    /// read content of at most this many bytes per contiguous range in audits
    pub audit_deep: bool,
    /// all steps are repeated this many times with clean-up in between (space reclamation)
    pub cycles: u32,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum FdRef {
    Slot(u16),
    Root,
    Raw(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Open { slot: u16, dir: FdRef, path: String, oflags: u16, fflags: u16, rights: u8, t: u64 },
    CreateDirOpen { slot: u16, dir: FdRef, path: String, t: u64 },
    Mkdir { dir: FdRef, path: String, t: u64 },
    Close { fd: FdRef },
    Flush { fd: FdRef },
    Advice { fd: FdRef },
    Allocate { fd: FdRef, off: u64, len: u64 },
    Renumber { from: FdRef, to: FdRef },
    Read { fd: FdRef, len: u32 },
    ReadVec { fd: FdRef, lens: Vec<u32> },
    ReadAt { fd: FdRef, lens: Vec<u32>, off: u64 },
    Write { fd: FdRef, pat: u64, len: u32 },
    WriteVec { fd: FdRef, pat: u64, lens: Vec<u32> },
    WriteAt { fd: FdRef, pat: u64, lens: Vec<u32>, off: u64 },
    Seek { fd: FdRef, delta: i64, whence: u8 },
    Tell { fd: FdRef },
    Meta { fd: FdRef },
    OpenMeta { dir: FdRef, path: String },
    NodeMeta { dir: FdRef, path: String },
    SetMeta { fd: FdRef, size: Option<u64>, times: Option<[u64; 3]>, limit: Option<Option<u64>>, bad_node: bool },
    SetSize { fd: FdRef, size: u64 },
    SetLimit { fd: FdRef, limit: u64 },
    SetATime { fd: FdRef, t: u64 },
    SetMTime { fd: FdRef, t: u64 },
    GetStat { fd: FdRef },
    SetStat { fd: FdRef, fflags: u16, rights: u8 },
    RemoveFile { dir: FdRef, path: String },
    RemoveDir { dir: FdRef, path: String },
    RemoveRec { dir: FdRef, path: String },
    Link { slot: u16, odir: FdRef, opath: String, ndir: FdRef, npath: String },
    Rename { slot: u16, odir: FdRef, opath: String, ndir: FdRef, npath: String },
    List { fd: FdRef, from: Option<u32>, max: u32 },
    GetEntry { fd: FdRef, idx: u32 },
    ScanStart { scan: u16, fd: FdRef },
    ScanStep { scan: u16, n: u32 },
    Mount { path: String, mem: u8, policy: u8, arg: u64 },
    Unmount { path: String },
    Init { path: String },
    Store { path: String },
    MemWrite { mem: u8, off: u64, pat: u64, len: u32 },
    MemGrow { mem: u8, pages: u32 },
    MemCheck { mem: u8 },
    MemCap { mem: u8, pages: u64 },
    SetChunkType { v1: bool },
    SetChunkSize { size: u32 },
    CoGrow { id: u8, pages: u32 },
    CoWrite { id: u8, off: u64, pat: u64, len: u32 },
    CoCheck,
    /// open a storage on an unacceptable index range
    BadRange {
        start: u8,
        len: u8,
        /// the end of the range, when it is not `start + len`
        #[serde(default)]
        end: Option<u8>,
    },
    /// many lookups / reads that push everything else out of a cache
    Thrash { kind: u8, n: u32 },
    /// stop the program and open the file system again on the same memory
    Restart { v1: bool },
    /// message boundary: everything before is committed
    Commit,
    /// the n-th memory access from here traps: roll back to the last commit
    Trap { n: u64, op: Box<Op> },
    /// the main memory may grow by no more than `extra` pages during this operation
    Refuse { extra: u64, op: Box<Op> },
    AuditLive,
    AuditShadow,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub fs: u8,
    pub client: u8,
    pub op: Op,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub profile: String,
    pub kind: String,
    pub tags: Vec<String>,
    pub detail: String,
    /// differential runs: the second configuration
    pub twin: Option<Config>,
    pub config: Config,
    pub steps: Vec<Step>,
    /// the run never ended: it is generated again from the seed
    pub by_seed: bool,
}

impl Op {
    /// the amount of data the call is about
    pub fn pages(&self) -> u64 {
        let n = |l: &u32| *l as u64 / 4096 + 2;
        match self {
            Op::Read { len, .. } | Op::Write { len, .. } => n(len),
            Op::ReadVec { lens, .. } | Op::ReadAt { lens, .. } | Op::WriteVec { lens, .. } | Op::WriteAt { lens, .. } => lens.iter().map(n).sum(),
            _ => 0,
        }
    }
    /// what the call has to do does not depend on anything but its object
    pub fn is_local(&self) -> bool {
        use Op::*;
        matches!(
            self,
            Read { .. } | ReadVec { .. } | ReadAt { .. } | Write { .. } | WriteVec { .. } | WriteAt { .. } | Seek { .. } | Tell { .. } | Meta { .. } | GetStat { .. } | SetStat { .. } | SetATime { .. } | SetMTime { .. } | SetLimit { .. } | GetEntry { .. } | Renumber { .. } | Close { .. } | Advice { .. } | Flush { .. }
        )
    }
    pub fn name(&self) -> &'static str {
        use Op::*;
        match self {
            Open { .. } => "open",
            CreateDirOpen { .. } => "create_open_directory",
            Mkdir { .. } => "mkdir",
            Close { .. } => "close",
            Flush { .. } => "flush",
            Advice { .. } => "advice",
            Allocate { .. } => "allocate",
            Renumber { .. } => "renumber",
            Read { .. } => "read",
            ReadVec { .. } => "read_vec",
            ReadAt { .. } => "read_vec_with_offset",
            Write { .. } => "write",
            WriteVec { .. } => "write_vec",
            WriteAt { .. } => "write_vec_with_offset",
            Seek { .. } => "seek",
            Tell { .. } => "tell",
            Meta { .. } => "metadata",
            OpenMeta { .. } => "open_metadata",
            NodeMeta { .. } => "metadata_from_node",
            SetMeta { .. } => "set_metadata",
            SetSize { .. } => "set_file_size",
            SetLimit { .. } => "set_file_size_limit",
            SetATime { .. } => "set_accessed_time",
            SetMTime { .. } => "set_modified_time",
            GetStat { .. } => "get_stat",
            SetStat { .. } => "set_stat",
            RemoveFile { .. } => "remove_file",
            RemoveDir { .. } => "remove_dir",
            RemoveRec { .. } => "remove_recursive",
            Link { .. } => "create_hard_link",
            Rename { .. } => "rename",
            List { .. } => "with_direntries",
            GetEntry { .. } => "get_direntry",
            ScanStart { .. } => "scan_start",
            ScanStep { .. } => "scan_step",
            Mount { .. } => "mount_memory_file",
            Unmount { .. } => "unmount_memory_file",
            Init { .. } => "init_memory_file",
            Store { .. } => "store_memory_file",
            MemWrite { .. } => "memory_owner_write",
            MemGrow { .. } => "memory_owner_grow",
            MemCheck { .. } => "memory_check",
            MemCap { .. } => "memory_capacity",
            SetChunkType { .. } => "set_chunk_type",
            SetChunkSize { .. } => "set_chunk_size",
            CoGrow { .. } => "cotenant_grow",
            CoWrite { .. } => "cotenant_write",
            CoCheck => "cotenant_check",
            BadRange { .. } => "bad_range",
            Thrash { .. } => "thrash_cache",
            Restart { .. } => "restart",
            Commit => "commit",
            Trap { .. } => "trap",
            Refuse { .. } => "refuse_growth",
            AuditLive => "audit_live",
            AuditShadow => "audit_shadow",
        }
    }
}
