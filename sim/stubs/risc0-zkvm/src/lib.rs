//! Stand-in for the zkVM: guest programs run in this process, with their input frames and journal
//! in memory. A guest that panics produces no journal, exactly as the real executor reports no session.
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::sync::{Mutex, OnceLock};

#[derive(Default)]
pub struct Vm {
    pub stdin: VecDeque<u8>,
    pub journal: Vec<u8>,
    pub logs: Vec<String>,
}
thread_local! {
    static VM: RefCell<Option<Vm>> = const { RefCell::new(None) };
}
fn vm<T>(f: impl FnOnce(&mut Vm) -> T) -> T {
    VM.with(|v| f(v.borrow_mut().as_mut().expect("no guest is running")))
}

/// Runs a guest: the journal of a run that ended normally, or the panic message and what had been committed.
pub fn sim_run(stdin: &[u8], main: impl FnOnce()) -> Result<Vec<u8>, (String, Vec<u8>)> {
    VM.with(|v| *v.borrow_mut() = Some(Vm { stdin: stdin.iter().copied().collect(), ..Vm::default() }));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(main));
    let vm = VM.with(|v| v.borrow_mut().take()).unwrap();
    match r {
        Ok(()) => Ok(vm.journal),
        Err(e) => Err((
            e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
            vm.journal,
        )),
    }
}
pub fn sim_frame(data: &[u8]) -> Vec<u8> {
    let mut b = (data.len() as u32).to_le_bytes().to_vec();
    b.extend_from_slice(data);
    b
}

pub mod guest {
    pub mod env {
        use crate::vm;
        pub fn log(msg: &str) {
            vm(|v| v.logs.push(msg.to_string()))
        }
        pub fn read_slice(out: &mut [u8]) {
            for b in out {
                *b = vm(|v| v.stdin.pop_front()).expect("end of input");
            }
        }
        pub fn read_frame() -> Vec<u8> {
            let mut l = [0; 4];
            read_slice(&mut l);
            let n = u32::from_le_bytes(l) as usize;
            assert!(vm(|v| v.stdin.len()) >= n, "end of input");
            vm(|v| v.stdin.drain(..n).collect())
        }
        pub fn read<T: serde::de::DeserializeOwned>() -> T {
            let b: Vec<u8> = vm(|v| v.stdin.make_contiguous().to_vec());
            let mut c = std::io::Cursor::new(&b[..]);
            let x = bincode::deserialize_from(&mut c).expect("input does not decode");
            let n = c.position() as usize;
            vm(|v| drop(v.stdin.drain(..n)));
            x
        }
        pub fn commit_slice(s: &[u8]) {
            vm(|v| v.journal.extend_from_slice(s))
        }
        pub fn commit<T: serde::Serialize>(t: &T) {
            commit_slice(&bincode::serialize(t).unwrap())
        }
        pub fn cycle_count() -> u64 {
            0
        }
    }
    #[macro_export]
    macro_rules! __sim_entry {
        ($main:path) => {
            pub fn __sim_main() {
                $main()
            }
        };
    }
    pub use __sim_entry as entry;
}

// ---- host side ----
type Guest = fn();
fn guests() -> &'static Mutex<HashMap<Vec<u8>, Guest>> {
    static G: OnceLock<Mutex<HashMap<Vec<u8>, Guest>>> = OnceLock::new();
    G.get_or_init(Default::default)
}
/// Makes a guest program known under the bytes that stand for its binary.
pub fn sim_register(elf: &[u8], main: Guest) {
    guests().lock().unwrap().insert(elf.to_vec(), main);
}

#[derive(Default)]
pub struct ExecutorEnv<'a> {
    stdin: Vec<u8>,
    _p: std::marker::PhantomData<&'a ()>,
}
#[derive(Default)]
pub struct ExecutorEnvBuilder<'a>(Vec<u8>, std::marker::PhantomData<&'a ()>);
impl<'a> ExecutorEnv<'a> {
    pub fn builder() -> ExecutorEnvBuilder<'a> {
        ExecutorEnvBuilder::default()
    }
}
impl<'a> ExecutorEnvBuilder<'a> {
    pub fn write_frame(&mut self, b: &[u8]) -> &mut Self {
        self.0.extend_from_slice(&sim_frame(b));
        self
    }
    pub fn write_slice(&mut self, b: &[u8]) -> &mut Self {
        self.0.extend_from_slice(b);
        self
    }
    pub fn write<T: serde::Serialize>(&mut self, t: &T) -> anyhow::Result<&mut Self> {
        self.0.extend_from_slice(&bincode::serialize(t)?);
        Ok(self)
    }
    pub fn build(&mut self) -> anyhow::Result<ExecutorEnv<'a>> {
        Ok(ExecutorEnv { stdin: std::mem::take(&mut self.0), _p: std::marker::PhantomData })
    }
}
pub struct Journal {
    pub bytes: Vec<u8>,
}
pub struct SessionInfo {
    pub journal: Journal,
    cycles: u64,
}
impl SessionInfo {
    pub fn cycles(&self) -> u64 {
        self.cycles
    }
}
pub struct LocalExecutor;
impl LocalExecutor {
    pub fn execute(&self, env: ExecutorEnv<'_>, elf: &[u8]) -> anyhow::Result<SessionInfo> {
        let main = *guests().lock().unwrap().get(elf).ok_or_else(|| anyhow::anyhow!("unknown guest"))?;
        match sim_run(&env.stdin, main) {
            Ok(bytes) => Ok(SessionInfo { journal: Journal { bytes }, cycles: 1 }),
            Err((e, _)) => Err(anyhow::anyhow!("Guest panicked: {e}")),
        }
    }
}
pub fn default_executor() -> LocalExecutor {
    LocalExecutor
}
