//! Stand-in for the generated `methods` crate: names by which the simulated executor finds a guest.
pub const MAINNET_ELF: &[u8] = b"sim:mainnet";
pub const SEPOLIA_ELF: &[u8] = b"sim:sepolia";
pub const TEST_HARNESS_ELF: &[u8] = b"sim:test-harness";
pub const MAINNET_ID: [u32; 8] = [1; 8];
pub const SEPOLIA_ID: [u32; 8] = [2; 8];
pub const TEST_HARNESS_ID: [u32; 8] = [3; 8];
pub const MAINNET_PATH: &str = "/sim/mainnet";
pub const SEPOLIA_PATH: &str = "/sim/sepolia";
pub const TEST_HARNESS_PATH: &str = "/sim/test-harness";
