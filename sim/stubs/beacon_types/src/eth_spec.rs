use crate::{ChainSpec, Error};
use safe_arith::SafeArith;
use ssz_types::typenum::{Unsigned, U1, U1048576, U128, U131072, U2048, U32, U4, U64, U65536, U8, U8192};
use std::fmt::Debug;
use std::hash::Hash;

pub trait EthSpec: 'static + Default + Sync + Send + Clone + Debug + PartialEq + Eq + Hash {
    type SlotsPerEpoch: Unsigned + Clone + Sync + Send + Debug + PartialEq;
    type EpochsPerHistoricalVector: Unsigned + Clone + Sync + Send + Debug + PartialEq;
    type MaxValidatorsPerCommittee: Unsigned + Clone + Sync + Send + Debug + PartialEq + Eq + Hash;
    type MaxCommitteesPerSlot: Unsigned + Clone + Sync + Send + Debug + PartialEq + Eq + Hash;
    type MaxValidatorsPerSlot: Unsigned + Clone + Sync + Send + Debug + PartialEq + Eq + Hash;
    type SlotsPerHistoricalRoot: Unsigned + Clone + Sync + Send + Debug + PartialEq;

    fn default_spec() -> ChainSpec;
    fn slots_per_epoch() -> u64 {
        Self::SlotsPerEpoch::to_u64()
    }
    fn epochs_per_historical_vector() -> usize {
        Self::EpochsPerHistoricalVector::to_usize()
    }
    fn slots_per_historical_root() -> usize {
        Self::SlotsPerHistoricalRoot::to_usize()
    }
    fn max_validators_per_committee() -> usize {
        Self::MaxValidatorsPerCommittee::to_usize()
    }
    fn max_committees_per_slot() -> usize {
        Self::MaxCommitteesPerSlot::to_usize()
    }
    fn get_committee_count_per_slot(active_validator_count: usize, spec: &ChainSpec) -> Result<usize, Error> {
        Self::get_committee_count_per_slot_with(active_validator_count, spec.max_committees_per_slot, spec.target_committee_size)
    }
    fn get_committee_count_per_slot_with(
        active_validator_count: usize,
        max_committees_per_slot: usize,
        target_committee_size: usize,
    ) -> Result<usize, Error> {
        let slots_per_epoch = Self::SlotsPerEpoch::to_usize();
        Ok(std::cmp::max(
            1,
            std::cmp::min(max_committees_per_slot, active_validator_count.safe_div(slots_per_epoch)?.safe_div(target_committee_size)?),
        ))
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Default, Hash, serde::Serialize, serde::Deserialize)]
pub struct MainnetEthSpec;
impl EthSpec for MainnetEthSpec {
    type SlotsPerEpoch = U32;
    type EpochsPerHistoricalVector = U65536;
    type MaxValidatorsPerCommittee = U2048;
    type MaxCommitteesPerSlot = U64;
    type MaxValidatorsPerSlot = U131072;
    type SlotsPerHistoricalRoot = U8192;
    fn default_spec() -> ChainSpec {
        ChainSpec::mainnet()
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Default, Hash, serde::Serialize, serde::Deserialize)]
pub struct MinimalEthSpec;
impl EthSpec for MinimalEthSpec {
    type SlotsPerEpoch = U8;
    type EpochsPerHistoricalVector = U64;
    type MaxValidatorsPerCommittee = U2048;
    type MaxCommitteesPerSlot = U4;
    type MaxValidatorsPerSlot = U8192;
    type SlotsPerHistoricalRoot = U64;
    fn default_spec() -> ChainSpec {
        ChainSpec::minimal()
    }
}
/// Extra small or odd parameters are handy in simulations.
#[allow(unused)]
type Unused = (U1, U128, U1048576);
