//! Types of Lighthouse's `beacon_chain` that the repository's in-process test chain names. The
//! simulator brings its own chain, so nothing here runs.
use beacon_types::{BeaconState, ChainSpec, EthSpec, Hash256, Keypair, Slot};
use std::marker::PhantomData;
use std::sync::Arc;

#[derive(Debug, Clone, Default)]
pub struct ChainConfig {
    pub reconstruct_historic_states: bool,
}
pub trait BeaconChainTypes: Send + Sync + 'static {
    type EthSpec: EthSpec;
}
#[derive(Debug)]
pub struct BeaconChainError;
#[derive(Debug, Clone, Copy)]
pub enum StateSkipConfig {
    WithStateRoots,
    WithoutStateRoots,
}
#[derive(Debug, Clone, Copy)]
pub enum WhenSlotSkipped {
    None,
    Prev,
}
pub struct BeaconChain<T>(pub Hash256, PhantomData<T>);
pub struct Block;
impl Block {
    pub fn signed_block_header(&self) -> u8 {
        unimplemented!()
    }
    pub fn deconstruct(self) -> (Block, ()) {
        unimplemented!()
    }
    pub fn as_electra(&self) -> Result<u8, BeaconChainError> {
        unimplemented!()
    }
}
pub struct Head;
impl Head {
    pub fn head_slot(&self) -> Slot {
        unimplemented!()
    }
}
pub mod test_utils {
    use super::*;
    pub struct EphemeralHarnessType<E>(PhantomData<fn() -> E>);
    impl<E: EthSpec> BeaconChainTypes for EphemeralHarnessType<E> {
        type EthSpec = E;
    }
    pub struct BeaconChainHarness<T: BeaconChainTypes> {
        pub chain: Arc<Chain<T>>,
    }
    pub struct Chain<T> {
        pub genesis_validators_root: Hash256,
        _p: PhantomData<fn() -> T>,
    }
    impl<T: BeaconChainTypes> Chain<T> {
        pub fn state_at_slot(&self, _: Slot, _: StateSkipConfig) -> Result<BeaconState<T::EthSpec>, BeaconChainError> {
            unimplemented!()
        }
        pub fn block_at_slot(&self, _: Slot, _: WhenSlotSkipped) -> Result<Option<Block>, BeaconChainError> {
            unimplemented!()
        }
        pub fn get_blinded_block(&self, _: &Hash256) -> Result<Option<Block>, BeaconChainError> {
            unimplemented!()
        }
        pub fn block_root_at_slot(&self, _: Slot, _: WhenSlotSkipped) -> Result<Option<Hash256>, BeaconChainError> {
            unimplemented!()
        }
        pub async fn get_block(&self, _: &Hash256) -> Result<Option<Block>, BeaconChainError> {
            unimplemented!()
        }
        pub fn get_state(&self, _: &Hash256, _: Option<Slot>, _: bool) -> Result<Option<BeaconState<T::EthSpec>>, BeaconChainError> {
            unimplemented!()
        }
        pub fn head(&self) -> Head {
            unimplemented!()
        }
    }
    pub struct Builder<E>(PhantomData<fn() -> E>);
    impl<E: EthSpec> Builder<E> {
        pub fn spec(self, _: Arc<ChainSpec>) -> Self {
            self
        }
        pub fn chain_config(self, _: ChainConfig) -> Self {
            self
        }
        pub fn keypairs(self, _: Vec<Keypair>) -> Self {
            self
        }
        pub fn fresh_ephemeral_store(self) -> Self {
            self
        }
        pub fn mock_execution_layer(self) -> Self {
            self
        }
        pub fn build(self) -> BeaconChainHarness<EphemeralHarnessType<E>> {
            unimplemented!()
        }
    }
    impl<E: EthSpec> BeaconChainHarness<EphemeralHarnessType<E>> {
        pub fn builder(_: E) -> Builder<E> {
            Builder(PhantomData)
        }
    }
    pub struct Generator;
    impl Generator {
        pub fn move_to_terminal_block(&self) -> Result<(), BeaconChainError> {
            unimplemented!()
        }
    }
    impl<T: BeaconChainTypes> BeaconChainHarness<T> {
        pub fn slots_per_epoch(&self) -> u64 {
            T::EthSpec::slots_per_epoch()
        }
        pub async fn extend_to_slot(&self, _: Slot) {
            unimplemented!()
        }
        pub fn execution_block_generator(&self) -> Generator {
            unimplemented!()
        }
        pub fn advance_slot(&self) {
            unimplemented!()
        }
        pub fn get_current_slot(&self) -> Slot {
            unimplemented!()
        }
        pub fn get_current_state(&self) -> BeaconState<T::EthSpec> {
            unimplemented!()
        }
        pub async fn add_attested_blocks_at_slots(&self, _: BeaconState<T::EthSpec>, _: Hash256, _: &[Slot], _: &[usize]) {
            unimplemented!()
        }
    }
}
