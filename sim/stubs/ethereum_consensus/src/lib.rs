//! Stand-in for `ethereum-consensus` (not available offline), written from the consensus
//! specification: the containers the repository uses, their SSZ and JSON forms and hash tree roots.
#![allow(clippy::type_complexity)]
use ::serde::{Deserialize as De, Serialize as Ser};
use ssz_rs::prelude::*;

pub mod ssz {
    pub use ssz_rs::prelude;
}

/// A fork of the chain.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Ser, De)]
#[serde(rename_all = "lowercase")]
pub enum Fork {
    Phase0,
    Altair,
    Bellatrix,
    Capella,
    Deneb,
    Electra,
    Fulu,
}
impl std::fmt::Display for Fork {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s = match self {
            Fork::Phase0 => "phase0",
            Fork::Altair => "altair",
            Fork::Bellatrix => "bellatrix",
            Fork::Capella => "capella",
            Fork::Deneb => "deneb",
            Fork::Electra => "electra",
            Fork::Fulu => "fulu",
        };
        f.write_str(s)
    }
}

pub mod primitives {
    use ssz_rs::prelude::*;
    pub type Root = alloy_primitives::B256;
    pub type Hash32 = Bytes32;
    pub type Bytes32 = ByteVector<32>;
    pub type Slot = u64;
    pub type Epoch = u64;
    pub type Gwei = u64;
    pub type ValidatorIndex = usize;
    pub type CommitteeIndex = usize;
    pub type WithdrawalIndex = usize;
    pub type ParticipationFlags = u8;
    pub type Version = ByteVector4;
    pub type ByteVector4 = [u8; 4];
    pub type BlsPublicKey = ByteVector<48>;
    pub type BlsSignature = ByteVector<96>;
    pub type ExecutionAddress = ByteVector<20>;
    pub type KzgCommitment = ByteVector<48>;
    pub const FAR_FUTURE_EPOCH: Epoch = u64::MAX;
}

pub mod serde {
    pub mod as_str {
        use serde::de::Error;
        use serde::{Deserialize, Deserializer, Serializer};
        pub fn serialize<S: Serializer, T: std::fmt::Display>(t: &T, s: S) -> Result<S::Ok, S::Error> {
            s.collect_str(t)
        }
        pub fn deserialize<'de, D: Deserializer<'de>, T: std::str::FromStr>(d: D) -> Result<T, D::Error> {
            let s = String::deserialize(d)?;
            s.parse().map_err(|_| D::Error::custom("not a number"))
        }
    }
    pub mod seq_of_str {
        use ssz_rs::SeqOfStr;
        pub fn serialize<S: serde::Serializer, T: SeqOfStr>(t: &T, s: S) -> Result<S::Ok, S::Error> {
            t.ser(s)
        }
        pub fn deserialize<'de, D: serde::Deserializer<'de>, T: SeqOfStr>(d: D) -> Result<T, D::Error> {
            T::de(d)
        }
    }
    /// Four-byte versions.
    pub mod as_hex4 {
        use serde::de::Error;
        use serde::{Deserialize, Deserializer, Serializer};
        pub fn serialize<S: Serializer>(t: &[u8; 4], s: S) -> Result<S::Ok, S::Error> {
            s.collect_str(&alloy_primitives::FixedBytes::<4>::from(*t))
        }
        pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<[u8; 4], D::Error> {
            let s = String::deserialize(d)?;
            if !s.starts_with("0x") {
                return Err(D::Error::custom("no 0x prefix"));
            }
            s.parse::<alloy_primitives::FixedBytes<4>>().map(|b| b.0).map_err(D::Error::custom)
        }
    }
}

macro_rules! container {
    ($(#[$m:meta])* $name:ident $(<$(const $p:ident),+>)? { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? }) => {
        $(#[$m])*
        #[derive(Default, Debug, Clone, PartialEq, Eq, SimpleSerialize, ::serde::Serialize, ::serde::Deserialize)]
        pub struct $name $(<$(const $p: usize),+>)? { $($(#[$fm])* pub $f: $t),* }
    };
}

pub mod phase0 {
    use super::*;
    use crate::primitives::*;
    use crate::serde::{as_str, seq_of_str};
    pub const JUSTIFICATION_BITS_LENGTH: usize = 4;
    pub use crate::primitives::FAR_FUTURE_EPOCH;

    container!(Checkpoint { #[serde(with = "as_str")] epoch: Epoch, root: Root });
    impl Copy for Checkpoint {}
    container!(Eth1Data { deposit_root: Root, #[serde(with = "as_str")] deposit_count: u64, block_hash: Bytes32 });

    #[derive(Default, Debug, Clone, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
    pub struct Fork {
        #[serde(with = "crate::serde::as_hex4")]
        pub previous_version: [u8; 4],
        #[serde(with = "crate::serde::as_hex4")]
        pub current_version: [u8; 4],
        #[serde(with = "as_str")]
        pub epoch: Epoch,
    }
    container!(ForkForm { previous_version: ByteVector<4>, current_version: ByteVector<4>, epoch: Epoch });
    impl Fork {
        fn form(&self) -> ForkForm {
            ForkForm { previous_version: self.previous_version.into(), current_version: self.current_version.into(), epoch: self.epoch }
        }
    }
    impl Serializable for Fork {
        fn is_variable_size() -> bool {
            false
        }
        fn size_hint() -> usize {
            ForkForm::size_hint()
        }
    }
    impl Serialize for Fork {
        fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
            Serialize::serialize(&self.form(), b)
        }
    }
    impl Deserialize for Fork {
        fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
            let f = <ForkForm as Deserialize>::deserialize(e)?;
            Ok(Fork { previous_version: f.previous_version.0, current_version: f.current_version.0, epoch: f.epoch })
        }
    }
    impl HashTreeRoot for Fork {
        fn tree_node(&self) -> ssz_rs::simtree::Node {
            self.form().tree_node()
        }
    }
    impl GeneralizedIndexable for Fork {
        fn compute_generalized_index(p: usize, path: Path) -> Result<usize, MerkleizationError> {
            ForkForm::compute_generalized_index(p, path)
        }
    }
    impl Prove for Fork {}

    container!(BeaconBlockHeader {
        #[serde(with = "as_str")] slot: Slot,
        #[serde(with = "as_str")] proposer_index: ValidatorIndex,
        parent_root: Root,
        state_root: Root,
        body_root: Root,
    });
    container!(SignedBeaconBlockHeader { message: BeaconBlockHeader, signature: BlsSignature });
    container!(Validator {
        #[serde(rename = "pubkey")] public_key: BlsPublicKey,
        withdrawal_credentials: Bytes32,
        #[serde(with = "as_str")] effective_balance: Gwei,
        slashed: bool,
        #[serde(with = "as_str")] activation_eligibility_epoch: Epoch,
        #[serde(with = "as_str")] activation_epoch: Epoch,
        #[serde(with = "as_str")] exit_epoch: Epoch,
        #[serde(with = "as_str")] withdrawable_epoch: Epoch,
    });
    container!(AttestationData {
        #[serde(with = "as_str")] slot: Slot,
        #[serde(with = "as_str")] index: CommitteeIndex,
        beacon_block_root: Root,
        source: Checkpoint,
        target: Checkpoint,
    });
    container!(PendingAttestation<const MAX_VALIDATORS_PER_COMMITTEE> {
        aggregation_bits: Bitlist<MAX_VALIDATORS_PER_COMMITTEE>,
        data: AttestationData,
        #[serde(with = "as_str")] inclusion_delay: Slot,
        #[serde(with = "as_str")] proposer_index: ValidatorIndex,
    });
    container!(Attestation<const MAX_VALIDATORS_PER_COMMITTEE> {
        aggregation_bits: Bitlist<MAX_VALIDATORS_PER_COMMITTEE>,
        data: AttestationData,
        signature: BlsSignature,
    });
    container!(BeaconState<const SLOTS_PER_HISTORICAL_ROOT, const HISTORICAL_ROOTS_LIMIT, const ETH1_DATA_VOTES_BOUND,
        const VALIDATOR_REGISTRY_LIMIT, const EPOCHS_PER_HISTORICAL_VECTOR, const EPOCHS_PER_SLASHINGS_VECTOR,
        const MAX_VALIDATORS_PER_COMMITTEE, const PENDING_ATTESTATIONS_BOUND> {
        #[serde(with = "as_str")] genesis_time: u64,
        genesis_validators_root: Root,
        #[serde(with = "as_str")] slot: Slot,
        fork: Fork,
        latest_block_header: BeaconBlockHeader,
        block_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
        state_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
        historical_roots: List<Root, HISTORICAL_ROOTS_LIMIT>,
        eth1_data: Eth1Data,
        eth1_data_votes: List<Eth1Data, ETH1_DATA_VOTES_BOUND>,
        #[serde(with = "as_str")] eth1_deposit_index: u64,
        validators: List<Validator, VALIDATOR_REGISTRY_LIMIT>,
        #[serde(with = "seq_of_str")] balances: List<Gwei, VALIDATOR_REGISTRY_LIMIT>,
        randao_mixes: Vector<Bytes32, EPOCHS_PER_HISTORICAL_VECTOR>,
        #[serde(with = "seq_of_str")] slashings: Vector<Gwei, EPOCHS_PER_SLASHINGS_VECTOR>,
        previous_epoch_attestations: List<PendingAttestation<MAX_VALIDATORS_PER_COMMITTEE>, PENDING_ATTESTATIONS_BOUND>,
        current_epoch_attestations: List<PendingAttestation<MAX_VALIDATORS_PER_COMMITTEE>, PENDING_ATTESTATIONS_BOUND>,
        justification_bits: Bitvector<JUSTIFICATION_BITS_LENGTH>,
        previous_justified_checkpoint: Checkpoint,
        current_justified_checkpoint: Checkpoint,
        finalized_checkpoint: Checkpoint,
    });
    container!(BeaconBlockBody {
        randao_reveal: BlsSignature,
        eth1_data: Eth1Data,
        graffiti: Bytes32,
        proposer_slashings: List<crate::Absent, 16>,
        attester_slashings: List<crate::Absent, 2>,
        attestations: List<Attestation<2048>, 128>,
        deposits: List<crate::Absent, 16>,
        voluntary_exits: List<crate::Absent, 16>,
    });

    pub mod mainnet {
        pub use crate::electra::mainnet::*;
        pub const MIN_SEED_LOOKAHEAD: u64 = 1;
        pub const PENDING_ATTESTATIONS_BOUND: usize = 4096;
        pub const SLOTS_PER_EPOCH: u64 = 32;
        pub const MAX_VALIDATORS_PER_COMMITTEE: usize = 2048;
    }
}

container!(
/// Operations that no simulated block contains.
Absent { index: u64 });

/// The state of the forks between Altair and Deneb.
macro_rules! middle_state {
    ($($(#[$fm:meta])* $f:ident: $t:ty),* ; $(const $p:ident),*) => {
        container!(BeaconState<const SLOTS_PER_HISTORICAL_ROOT, const HISTORICAL_ROOTS_LIMIT, const ETH1_DATA_VOTES_BOUND,
            const VALIDATOR_REGISTRY_LIMIT, const EPOCHS_PER_HISTORICAL_VECTOR, const EPOCHS_PER_SLASHINGS_VECTOR,
            const MAX_VALIDATORS_PER_COMMITTEE, const SYNC_COMMITTEE_SIZE $(, const $p)*> {
            #[serde(with = "as_str")] genesis_time: u64,
            genesis_validators_root: Root,
            #[serde(with = "as_str")] slot: Slot,
            fork: Fork,
            latest_block_header: BeaconBlockHeader,
            block_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
            state_roots: Vector<Root, SLOTS_PER_HISTORICAL_ROOT>,
            historical_roots: List<Root, HISTORICAL_ROOTS_LIMIT>,
            eth1_data: Eth1Data,
            eth1_data_votes: List<Eth1Data, ETH1_DATA_VOTES_BOUND>,
            #[serde(with = "as_str")] eth1_deposit_index: u64,
            validators: List<Validator, VALIDATOR_REGISTRY_LIMIT>,
            #[serde(with = "seq_of_str")] balances: List<Gwei, VALIDATOR_REGISTRY_LIMIT>,
            randao_mixes: Vector<Bytes32, EPOCHS_PER_HISTORICAL_VECTOR>,
            #[serde(with = "seq_of_str")] slashings: Vector<Gwei, EPOCHS_PER_SLASHINGS_VECTOR>,
            #[serde(with = "seq_of_str")] previous_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
            #[serde(with = "seq_of_str")] current_epoch_participation: List<ParticipationFlags, VALIDATOR_REGISTRY_LIMIT>,
            justification_bits: Bitvector<JUSTIFICATION_BITS_LENGTH>,
            previous_justified_checkpoint: Checkpoint,
            current_justified_checkpoint: Checkpoint,
            finalized_checkpoint: Checkpoint,
            #[serde(with = "seq_of_str")] inactivity_scores: List<u64, VALIDATOR_REGISTRY_LIMIT>,
            current_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
            next_sync_committee: SyncCommittee<SYNC_COMMITTEE_SIZE>,
            $($(#[$fm])* $f: $t),*
        });
    };
}
macro_rules! payload_header {
    ($($(#[$fm:meta])* $f:ident: $t:ty),*) => {
        container!(ExecutionPayloadHeader<const BYTES_PER_LOGS_BLOOM, const MAX_EXTRA_DATA_BYTES> {
            parent_hash: Hash32,
            fee_recipient: ExecutionAddress,
            state_root: Bytes32,
            receipts_root: Bytes32,
            logs_bloom: ByteVector<BYTES_PER_LOGS_BLOOM>,
            prev_randao: Bytes32,
            #[serde(with = "as_str")] block_number: u64,
            #[serde(with = "as_str")] gas_limit: u64,
            #[serde(with = "as_str")] gas_used: u64,
            #[serde(with = "as_str")] timestamp: u64,
            extra_data: ByteList<MAX_EXTRA_DATA_BYTES>,
            #[serde(with = "as_str")] base_fee_per_gas: U256,
            block_hash: Hash32,
            transactions_root: Root,
            $($(#[$fm])* $f: $t),*
        });
    };
}
macro_rules! payload {
    ($($(#[$fm:meta])* $f:ident: $t:ty),*) => {
        container!(ExecutionPayload {
            parent_hash: Hash32,
            fee_recipient: ExecutionAddress,
            state_root: Bytes32,
            receipts_root: Bytes32,
            logs_bloom: ByteVector<256>,
            prev_randao: Bytes32,
            #[serde(with = "as_str")] block_number: u64,
            #[serde(with = "as_str")] gas_limit: u64,
            #[serde(with = "as_str")] gas_used: u64,
            #[serde(with = "as_str")] timestamp: u64,
            extra_data: ByteList<32>,
            #[serde(with = "as_str")] base_fee_per_gas: U256,
            block_hash: Hash32,
            transactions: List<ByteList<1073741824>, 1048576>,
            $($(#[$fm])* $f: $t),*
        });
    };
}
macro_rules! body {
    ($att:ty, $natt:literal, $nas:literal; $($f:ident: $t:ty),*) => {
        container!(BeaconBlockBody {
            randao_reveal: BlsSignature,
            eth1_data: Eth1Data,
            graffiti: Bytes32,
            proposer_slashings: List<crate::Absent, 16>,
            attester_slashings: List<crate::Absent, $nas>,
            attestations: List<$att, $natt>,
            deposits: List<crate::Absent, 16>,
            voluntary_exits: List<crate::Absent, 16>,
            sync_aggregate: SyncAggregate,
            $($f: $t),*
        });
    };
}
macro_rules! uses {
    () => {
        #[allow(unused_imports)]
        use super::*;
        #[allow(unused_imports)]
        pub use crate::phase0::{AttestationData, BeaconBlockHeader, Checkpoint, Eth1Data, Fork, SignedBeaconBlockHeader, Validator, FAR_FUTURE_EPOCH, JUSTIFICATION_BITS_LENGTH};
        #[allow(unused_imports)]
        use crate::primitives::*;
        #[allow(unused_imports)]
        use crate::serde::{as_str, seq_of_str};
    };
}

pub mod altair {
    uses!();
    container!(SyncCommittee<const SYNC_COMMITTEE_SIZE> {
        #[serde(rename = "pubkeys")] public_keys: Vector<BlsPublicKey, SYNC_COMMITTEE_SIZE>,
        #[serde(rename = "aggregate_pubkey")] aggregate_public_key: BlsPublicKey,
    });
    container!(SyncAggregate { sync_committee_bits: Bitvector<512>, sync_committee_signature: BlsSignature });
    middle_state!(;);
    body!(crate::phase0::Attestation<2048>, 128, 2;);
}
pub mod bellatrix {
    uses!();
    use crate::altair::{SyncAggregate, SyncCommittee};
    payload_header!();
    payload!();
    middle_state!(latest_execution_payload_header: ExecutionPayloadHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>;
        const BYTES_PER_LOGS_BLOOM, const MAX_EXTRA_DATA_BYTES);
    body!(crate::phase0::Attestation<2048>, 128, 2; execution_payload: ExecutionPayload);
}
pub mod capella {
    uses!();
    use crate::altair::{SyncAggregate, SyncCommittee};
    container!(HistoricalSummary { block_summary_root: Root, state_summary_root: Root });
    payload_header!(withdrawals_root: Root);
    payload!(withdrawals: List<crate::Absent, 16>);
    middle_state!(latest_execution_payload_header: ExecutionPayloadHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
        #[serde(with = "as_str")] next_withdrawal_index: WithdrawalIndex,
        #[serde(with = "as_str")] next_withdrawal_validator_index: ValidatorIndex,
        historical_summaries: List<HistoricalSummary, HISTORICAL_ROOTS_LIMIT>;
        const BYTES_PER_LOGS_BLOOM, const MAX_EXTRA_DATA_BYTES);
    body!(crate::phase0::Attestation<2048>, 128, 2; execution_payload: ExecutionPayload, bls_to_execution_changes: List<crate::Absent, 16>);
}
pub mod deneb {
    uses!();
    use crate::altair::{SyncAggregate, SyncCommittee};
    use crate::capella::HistoricalSummary;
    pub use crate::phase0::PendingAttestation;
    pub use crate::primitives::ParticipationFlags;
    payload_header!(withdrawals_root: Root, #[serde(with = "as_str")] blob_gas_used: u64, #[serde(with = "as_str")] excess_blob_gas: u64);
    payload!(withdrawals: List<crate::Absent, 16>, #[serde(with = "as_str")] blob_gas_used: u64, #[serde(with = "as_str")] excess_blob_gas: u64);
    middle_state!(latest_execution_payload_header: ExecutionPayloadHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
        #[serde(with = "as_str")] next_withdrawal_index: WithdrawalIndex,
        #[serde(with = "as_str")] next_withdrawal_validator_index: ValidatorIndex,
        historical_summaries: List<HistoricalSummary, HISTORICAL_ROOTS_LIMIT>;
        const BYTES_PER_LOGS_BLOOM, const MAX_EXTRA_DATA_BYTES);
    body!(crate::phase0::Attestation<2048>, 128, 2; execution_payload: ExecutionPayload, bls_to_execution_changes: List<crate::Absent, 16>,
        blob_kzg_commitments: List<KzgCommitment, 4096>);
}
pub mod electra {
    uses!();
    use crate::altair::SyncAggregate;
    pub use crate::deneb::{ExecutionPayload, ExecutionPayloadHeader};
    container!(PendingConsolidation {
        #[serde(with = "as_str")] source_index: ValidatorIndex,
        #[serde(with = "as_str")] target_index: ValidatorIndex,
    });
    container!(Attestation<const MAX_VALIDATORS_PER_SLOT, const MAX_COMMITTEES_PER_SLOT> {
        aggregation_bits: Bitlist<MAX_VALIDATORS_PER_SLOT>,
        data: AttestationData,
        signature: BlsSignature,
        committee_bits: Bitvector<MAX_COMMITTEES_PER_SLOT>,
    });
    container!(ExecutionRequests {
        deposits: List<crate::Absent, 8192>,
        withdrawals: List<crate::Absent, 16>,
        consolidations: List<crate::Absent, 2>,
    });
    body!(Attestation<131072, 64>, 8, 1; execution_payload: ExecutionPayload, bls_to_execution_changes: List<crate::Absent, 16>,
        blob_kzg_commitments: List<KzgCommitment, 4096>, execution_requests: ExecutionRequests);

    pub mod mainnet {
        pub use crate::phase0::SignedBeaconBlockHeader;
        pub const BYTES_PER_LOGS_BLOOM: usize = 256;
        pub const EPOCHS_PER_HISTORICAL_VECTOR: usize = 65536;
        pub const EPOCHS_PER_SLASHINGS_VECTOR: usize = 8192;
        pub const ETH1_DATA_VOTES_BOUND: usize = 2048;
        pub const HISTORICAL_ROOTS_LIMIT: usize = 16777216;
        pub const MAX_EXTRA_DATA_BYTES: usize = 32;
        pub const MAX_VALIDATORS_PER_COMMITTEE: usize = 2048;
        pub const MAX_COMMITTEES_PER_SLOT: usize = 64;
        pub const MAX_VALIDATORS_PER_SLOT: usize = 131072;
        pub const PENDING_CONSOLIDATIONS_LIMIT: usize = 262144;
        pub const PENDING_DEPOSITS_LIMIT: usize = 134217728;
        pub const PENDING_PARTIAL_WITHDRAWALS_LIMIT: usize = 134217728;
        pub const SLOTS_PER_HISTORICAL_ROOT: usize = 8192;
        pub const SYNC_COMMITTEE_SIZE: usize = 512;
        pub const VALIDATOR_REGISTRY_LIMIT: usize = 1099511627776;
        pub const SLOTS_PER_EPOCH: u64 = 32;
        pub type BeaconBlockBody = super::BeaconBlockBody;
        pub type Attestation = super::Attestation<MAX_VALIDATORS_PER_SLOT, MAX_COMMITTEES_PER_SLOT>;
    }
}

pub mod types {
    use crate::primitives::*;
    use crate::serde::as_str;
    use crate::{altair, bellatrix, capella, deneb, electra, phase0, Fork};
    use ssz_rs::prelude::*;

    macro_rules! blocks {
        ($($variant:ident $m:ident $block:ident),*) => {
            $(container!($block {
                #[serde(with = "as_str")] slot: Slot,
                #[serde(with = "as_str")] proposer_index: ValidatorIndex,
                parent_root: Root,
                state_root: Root,
                body: $m::BeaconBlockBody,
            });)*
            #[derive(Debug, Clone, PartialEq, Eq, Serializable, HashTreeRoot, GeneralizedIndexable, Prove, ::serde::Serialize)]
            #[ssz(transparent)]
            #[serde(untagged)]
            pub enum BeaconBlock { $($variant($block)),* }
            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum BeaconBlockBodyRef<'a> { $($variant(&'a $m::BeaconBlockBody)),* }
            impl BeaconBlock {
                pub fn version(&self) -> Fork { match self { $(Self::$variant(_) => Fork::$variant),* } }
                pub fn slot(&self) -> Slot { match self { $(Self::$variant(x) => x.slot),* } }
                pub fn proposer_index(&self) -> ValidatorIndex { match self { $(Self::$variant(x) => x.proposer_index),* } }
                pub fn parent_root(&self) -> Root { match self { $(Self::$variant(x) => x.parent_root),* } }
                pub fn state_root(&self) -> Root { match self { $(Self::$variant(x) => x.state_root),* } }
                pub fn body(&self) -> BeaconBlockBodyRef<'_> { match self { $(Self::$variant(x) => BeaconBlockBodyRef::$variant(&x.body)),* } }
            }
        };
    }
    blocks!(Phase0 phase0 Phase0Block, Altair altair AltairBlock, Bellatrix bellatrix BellatrixBlock, Capella capella CapellaBlock,
        Deneb deneb DenebBlock, Electra electra ElectraBlock);
    impl BeaconBlock {
        pub fn electra(&self) -> Option<&ElectraBlock> {
            match self {
                Self::Electra(x) => Some(x),
                _ => None,
            }
        }
    }
    impl<'a> BeaconBlockBodyRef<'a> {
        pub fn electra(&self) -> Option<&'a electra::BeaconBlockBody> {
            match self {
                Self::Electra(x) => Some(x),
                _ => None,
            }
        }
    }
    // newest form first, as the original decodes untagged blocks
    impl<'de> ::serde::Deserialize<'de> for BeaconBlock {
        fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let v = serde_json::Value::deserialize(d)?;
            macro_rules! attempt { ($($t:ident)*) => { $(if let Ok(x) = ::serde::Deserialize::deserialize(&v) { return Ok(Self::$t(x)); })* } }
            attempt!(Electra Deneb Capella Bellatrix Altair Phase0);
            Err(::serde::de::Error::custom("no variant could be deserialized from input"))
        }
    }

    pub mod mainnet {
        pub use super::{BeaconBlock, BeaconBlockBodyRef};
    }
}
