use crate::{Epoch, EthSpec, Fork, ForkData, Hash256, Slot};
use safe_arith::{ArithError, SafeArith};
use serde::{Deserialize, Serialize};
use std::fmt;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(try_from = "String", into = "String")]
pub enum ForkName {
    Base,
    Altair,
    Bellatrix,
    Capella,
    Deneb,
    Electra,
    Fulu,
    Gloas,
}
use ForkName::*;
impl ForkName {
    pub fn list_all() -> Vec<ForkName> {
        vec![Base, Altair, Bellatrix, Capella, Deneb, Electra, Fulu, Gloas]
    }
    pub fn latest() -> ForkName {
        Gloas
    }
    pub fn latest_stable() -> ForkName {
        Fulu
    }
    pub fn previous_fork(self) -> Option<ForkName> {
        let all = Self::list_all();
        let i = all.iter().position(|f| *f == self).unwrap();
        i.checked_sub(1).map(|i| all[i])
    }
    pub fn next_fork(self) -> Option<ForkName> {
        let all = Self::list_all();
        let i = all.iter().position(|f| *f == self).unwrap();
        all.get(i + 1).copied()
    }
    pub fn altair_enabled(self) -> bool {
        self >= Altair
    }
    pub fn bellatrix_enabled(self) -> bool {
        self >= Bellatrix
    }
    pub fn capella_enabled(self) -> bool {
        self >= Capella
    }
    pub fn deneb_enabled(self) -> bool {
        self >= Deneb
    }
    pub fn electra_enabled(self) -> bool {
        self >= Electra
    }
    pub fn fulu_enabled(self) -> bool {
        self >= Fulu
    }
    pub fn gloas_enabled(self) -> bool {
        self >= Gloas
    }
}
impl fmt::Display for ForkName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Base => "phase0",
            Altair => "altair",
            Bellatrix => "bellatrix",
            Capella => "capella",
            Deneb => "deneb",
            Electra => "electra",
            Fulu => "fulu",
            Gloas => "gloas",
        })
    }
}
impl std::str::FromStr for ForkName {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        Ok(match s.to_lowercase().as_ref() {
            "phase0" | "base" => Base,
            "altair" => Altair,
            "bellatrix" | "merge" => Bellatrix,
            "capella" => Capella,
            "deneb" => Deneb,
            "electra" => Electra,
            "fulu" => Fulu,
            "gloas" => Gloas,
            _ => return Err(format!("unknown fork name: {s}")),
        })
    }
}
impl TryFrom<String> for ForkName {
    type Error = String;
    fn try_from(s: String) -> Result<Self, String> {
        s.parse()
    }
}
impl From<ForkName> for String {
    fn from(f: ForkName) -> String {
        f.to_string()
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Domain {
    BlsToExecutionChange,
    BeaconProposer,
    BeaconAttester,
    Randao,
    Deposit,
    VoluntaryExit,
    SelectionProof,
    AggregateAndProof,
    SyncCommittee,
    ContributionAndProof,
    SyncCommitteeSelectionProof,
}

#[derive(Debug, Clone, PartialEq)]
pub struct ChainSpec {
    pub config_name: Option<String>,
    pub genesis_slot: Slot,
    pub far_future_epoch: Epoch,
    pub max_committees_per_slot: usize,
    pub target_committee_size: usize,
    pub min_per_epoch_churn_limit: u64,
    pub churn_limit_quotient: u64,
    pub shuffle_round_count: u8,
    pub min_genesis_active_validator_count: u64,
    pub min_deposit_amount: u64,
    pub max_effective_balance: u64,
    pub ejection_balance: u64,
    pub effective_balance_increment: u64,
    pub min_attestation_inclusion_delay: u64,
    pub min_seed_lookahead: Epoch,
    pub max_seed_lookahead: Epoch,
    pub min_epochs_to_inactivity_penalty: u64,
    pub min_validator_withdrawability_delay: Epoch,
    pub shard_committee_period: u64,
    pub seconds_per_slot: u64,
    pub genesis_fork_version: [u8; 4],
    pub altair_fork_version: [u8; 4],
    pub altair_fork_epoch: Option<Epoch>,
    pub bellatrix_fork_version: [u8; 4],
    pub bellatrix_fork_epoch: Option<Epoch>,
    pub capella_fork_version: [u8; 4],
    pub capella_fork_epoch: Option<Epoch>,
    pub deneb_fork_version: [u8; 4],
    pub deneb_fork_epoch: Option<Epoch>,
    pub electra_fork_version: [u8; 4],
    pub electra_fork_epoch: Option<Epoch>,
    pub fulu_fork_version: [u8; 4],
    pub fulu_fork_epoch: Option<Epoch>,
    pub gloas_fork_version: [u8; 4],
    pub gloas_fork_epoch: Option<Epoch>,
    pub min_per_epoch_churn_limit_electra: u64,
    pub max_per_epoch_activation_exit_churn_limit: u64,
    pub min_activation_balance: u64,
    pub max_effective_balance_electra: u64,
    pub deposit_chain_id: u64,
    pub deposit_network_id: u64,
}
impl ChainSpec {
    pub fn mainnet() -> Self {
        ChainSpec {
            config_name: Some("mainnet".into()),
            genesis_slot: Slot::new(0),
            far_future_epoch: Epoch::new(u64::MAX),
            max_committees_per_slot: 64,
            target_committee_size: 128,
            min_per_epoch_churn_limit: 4,
            churn_limit_quotient: 65_536,
            shuffle_round_count: 90,
            min_genesis_active_validator_count: 16_384,
            min_deposit_amount: 1_000_000_000,
            max_effective_balance: 32_000_000_000,
            ejection_balance: 16_000_000_000,
            effective_balance_increment: 1_000_000_000,
            min_attestation_inclusion_delay: 1,
            min_seed_lookahead: Epoch::new(1),
            max_seed_lookahead: Epoch::new(4),
            min_epochs_to_inactivity_penalty: 4,
            min_validator_withdrawability_delay: Epoch::new(256),
            shard_committee_period: 256,
            seconds_per_slot: 12,
            genesis_fork_version: [0; 4],
            altair_fork_version: [1, 0, 0, 0],
            altair_fork_epoch: Some(Epoch::new(74240)),
            bellatrix_fork_version: [2, 0, 0, 0],
            bellatrix_fork_epoch: Some(Epoch::new(144896)),
            capella_fork_version: [3, 0, 0, 0],
            capella_fork_epoch: Some(Epoch::new(194048)),
            deneb_fork_version: [4, 0, 0, 0],
            deneb_fork_epoch: Some(Epoch::new(269568)),
            electra_fork_version: [5, 0, 0, 0],
            electra_fork_epoch: Some(Epoch::new(364032)),
            fulu_fork_version: [6, 0, 0, 0],
            fulu_fork_epoch: Some(Epoch::new(411392)),
            gloas_fork_version: [7, 0, 0, 0],
            gloas_fork_epoch: None,
            min_per_epoch_churn_limit_electra: 128_000_000_000,
            max_per_epoch_activation_exit_churn_limit: 256_000_000_000,
            min_activation_balance: 32_000_000_000,
            max_effective_balance_electra: 2_048_000_000_000,
            deposit_chain_id: 1,
            deposit_network_id: 1,
        }
    }
    pub fn minimal() -> Self {
        ChainSpec {
            config_name: None,
            max_committees_per_slot: 4,
            target_committee_size: 4,
            min_per_epoch_churn_limit: 2,
            churn_limit_quotient: 32,
            shuffle_round_count: 10,
            min_genesis_active_validator_count: 64,
            shard_committee_period: 64,
            seconds_per_slot: 6,
            genesis_fork_version: [0, 0, 0, 1],
            altair_fork_version: [1, 0, 0, 1],
            altair_fork_epoch: None,
            bellatrix_fork_version: [2, 0, 0, 1],
            bellatrix_fork_epoch: None,
            capella_fork_version: [3, 0, 0, 1],
            capella_fork_epoch: None,
            deneb_fork_version: [4, 0, 0, 1],
            deneb_fork_epoch: None,
            electra_fork_version: [5, 0, 0, 1],
            electra_fork_epoch: None,
            fulu_fork_version: [6, 0, 0, 1],
            fulu_fork_epoch: None,
            gloas_fork_version: [7, 0, 0, 1],
            min_per_epoch_churn_limit_electra: 64_000_000_000,
            max_per_epoch_activation_exit_churn_limit: 128_000_000_000,
            ..Self::mainnet()
        }
    }
    pub fn fork_name_at_slot<E: EthSpec>(&self, slot: Slot) -> ForkName {
        self.fork_name_at_epoch(slot.epoch(E::slots_per_epoch()))
    }
    pub fn fork_name_at_epoch(&self, epoch: Epoch) -> ForkName {
        ForkName::list_all().into_iter().rev().find(|f| self.fork_epoch(*f).is_some_and(|e| epoch >= e)).unwrap_or(Base)
    }
    pub fn fork_version_for_name(&self, f: ForkName) -> [u8; 4] {
        match f {
            Base => self.genesis_fork_version,
            Altair => self.altair_fork_version,
            Bellatrix => self.bellatrix_fork_version,
            Capella => self.capella_fork_version,
            Deneb => self.deneb_fork_version,
            Electra => self.electra_fork_version,
            Fulu => self.fulu_fork_version,
            Gloas => self.gloas_fork_version,
        }
    }
    pub fn fork_epoch(&self, f: ForkName) -> Option<Epoch> {
        match f {
            Base => Some(Epoch::new(0)),
            Altair => self.altair_fork_epoch,
            Bellatrix => self.bellatrix_fork_epoch,
            Capella => self.capella_fork_epoch,
            Deneb => self.deneb_fork_epoch,
            Electra => self.electra_fork_epoch,
            Fulu => self.fulu_fork_epoch,
            Gloas => self.gloas_fork_epoch,
        }
    }
    pub fn fork_version_at_epoch(&self, epoch: Epoch) -> [u8; 4] {
        self.fork_version_for_name(self.fork_name_at_epoch(epoch))
    }
    /// Also a setter, for simulated fork schedules.
    pub fn set_fork_epoch(&mut self, f: ForkName, epoch: Option<Epoch>) {
        *match f {
            Base => return,
            Altair => &mut self.altair_fork_epoch,
            Bellatrix => &mut self.bellatrix_fork_epoch,
            Capella => &mut self.capella_fork_epoch,
            Deneb => &mut self.deneb_fork_epoch,
            Electra => &mut self.electra_fork_epoch,
            Fulu => &mut self.fulu_fork_epoch,
            Gloas => &mut self.gloas_fork_epoch,
        } = epoch;
    }
    pub fn fork_at_epoch(&self, epoch: Epoch) -> Fork {
        let current = self.fork_name_at_epoch(epoch);
        let fork_epoch = self.fork_epoch(current).expect("current fork is scheduled");
        // At genesis the Fork is initialised with two copies of the same value, see the specification.
        let previous = if current == Base || fork_epoch == 0 {
            self.fork_version_for_name(current)
        } else {
            self.fork_version_for_name(current.previous_fork().unwrap_or(Base))
        };
        Fork { previous_version: previous, current_version: self.fork_version_for_name(current), epoch: fork_epoch }
    }
    pub fn get_domain_constant(&self, domain: Domain) -> u32 {
        match domain {
            Domain::BeaconProposer => 0,
            Domain::BeaconAttester => 1,
            Domain::Randao => 2,
            Domain::Deposit => 3,
            Domain::VoluntaryExit => 4,
            Domain::SelectionProof => 5,
            Domain::AggregateAndProof => 6,
            Domain::SyncCommittee => 7,
            Domain::SyncCommitteeSelectionProof => 8,
            Domain::ContributionAndProof => 9,
            Domain::BlsToExecutionChange => 10,
        }
    }
    pub fn get_domain(&self, epoch: Epoch, domain: Domain, fork: &Fork, genesis_validators_root: Hash256) -> Hash256 {
        self.compute_domain(domain, fork.get_fork_version(epoch), genesis_validators_root)
    }
    pub fn get_deposit_domain(&self) -> Hash256 {
        self.compute_domain(Domain::Deposit, self.genesis_fork_version, Hash256::ZERO)
    }
    pub fn compute_fork_data_root(current_version: [u8; 4], genesis_validators_root: Hash256) -> Hash256 {
        ForkData { current_version, genesis_validators_root }.tree_hash_root()
    }
    pub fn compute_domain(&self, domain: Domain, fork_version: [u8; 4], genesis_validators_root: Hash256) -> Hash256 {
        let root = Self::compute_fork_data_root(fork_version, genesis_validators_root);
        let mut d = [0; 32];
        d[..4].copy_from_slice(&self.get_domain_constant(domain).to_le_bytes());
        d[4..].copy_from_slice(&root[..28]);
        d.into()
    }
    pub fn compute_activation_exit_epoch(&self, epoch: Epoch) -> Result<Epoch, ArithError> {
        epoch.safe_add(1)?.safe_add(self.max_seed_lookahead)
    }
    pub fn from_config<E: EthSpec>(config: &Config) -> Option<Self> {
        let preset = E::default_spec();
        config.apply_to_chain_spec::<E>(&preset)
    }
}

mod num {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer, T: Serialize>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        v.serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
        #[derive(Deserialize)]
        #[serde(untagged)]
        enum V {
            N(u64),
            S(String),
        }
        match V::deserialize(d)? {
            V::N(n) => Ok(n),
            V::S(s) => s.parse().map_err(serde::de::Error::custom),
        }
    }
}
mod version {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8; 4], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("0x{}", hex::encode(v)))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<[u8; 4], D::Error> {
        let s = String::deserialize(d)?;
        let b = hex::decode(s.strip_prefix("0x").unwrap_or(&s)).map_err(serde::de::Error::custom)?;
        b.try_into().map_err(|_| serde::de::Error::custom("fork version is four bytes"))
    }
}
fn far() -> u64 {
    u64::MAX
}

/// The network configuration file. Fork epochs of `u64::MAX` mean "not scheduled".
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(rename_all = "UPPERCASE")]
pub struct Config {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub config_name: Option<String>,
    #[serde(default)]
    pub preset_base: String,
    #[serde(with = "num")]
    pub min_genesis_active_validator_count: u64,
    #[serde(with = "version")]
    pub genesis_fork_version: [u8; 4],
    #[serde(with = "version")]
    pub altair_fork_version: [u8; 4],
    #[serde(with = "num", default = "far")]
    pub altair_fork_epoch: u64,
    #[serde(with = "version")]
    pub bellatrix_fork_version: [u8; 4],
    #[serde(with = "num", default = "far")]
    pub bellatrix_fork_epoch: u64,
    #[serde(with = "version")]
    pub capella_fork_version: [u8; 4],
    #[serde(with = "num", default = "far")]
    pub capella_fork_epoch: u64,
    #[serde(with = "version")]
    pub deneb_fork_version: [u8; 4],
    #[serde(with = "num", default = "far")]
    pub deneb_fork_epoch: u64,
    #[serde(with = "version")]
    pub electra_fork_version: [u8; 4],
    #[serde(with = "num", default = "far")]
    pub electra_fork_epoch: u64,
    #[serde(with = "version")]
    pub fulu_fork_version: [u8; 4],
    #[serde(with = "num", default = "far")]
    pub fulu_fork_epoch: u64,
    #[serde(with = "version", default)]
    pub gloas_fork_version: [u8; 4],
    #[serde(with = "num", default = "far")]
    pub gloas_fork_epoch: u64,
    #[serde(with = "num")]
    pub seconds_per_slot: u64,
    #[serde(with = "num")]
    pub min_validator_withdrawability_delay: u64,
    #[serde(with = "num")]
    pub shard_committee_period: u64,
    #[serde(with = "num")]
    pub ejection_balance: u64,
    #[serde(with = "num")]
    pub min_per_epoch_churn_limit: u64,
    #[serde(with = "num")]
    pub churn_limit_quotient: u64,
    #[serde(with = "num")]
    pub deposit_chain_id: u64,
    #[serde(with = "num")]
    pub deposit_network_id: u64,
    #[serde(with = "num")]
    pub min_per_epoch_churn_limit_electra: u64,
    #[serde(with = "num")]
    pub max_per_epoch_activation_exit_churn_limit: u64,
}
fn opt(e: u64) -> Option<Epoch> {
    (e != u64::MAX).then(|| Epoch::new(e))
}
fn unopt(e: Option<Epoch>) -> u64 {
    e.map_or(u64::MAX, |e| e.as_u64())
}
impl Config {
    pub fn from_chain_spec<E: EthSpec>(s: &ChainSpec) -> Self {
        Config {
            config_name: s.config_name.clone(),
            preset_base: if E::slots_per_epoch() == 32 { "mainnet" } else { "minimal" }.into(),
            min_genesis_active_validator_count: s.min_genesis_active_validator_count,
            genesis_fork_version: s.genesis_fork_version,
            altair_fork_version: s.altair_fork_version,
            altair_fork_epoch: unopt(s.altair_fork_epoch),
            bellatrix_fork_version: s.bellatrix_fork_version,
            bellatrix_fork_epoch: unopt(s.bellatrix_fork_epoch),
            capella_fork_version: s.capella_fork_version,
            capella_fork_epoch: unopt(s.capella_fork_epoch),
            deneb_fork_version: s.deneb_fork_version,
            deneb_fork_epoch: unopt(s.deneb_fork_epoch),
            electra_fork_version: s.electra_fork_version,
            electra_fork_epoch: unopt(s.electra_fork_epoch),
            fulu_fork_version: s.fulu_fork_version,
            fulu_fork_epoch: unopt(s.fulu_fork_epoch),
            gloas_fork_version: s.gloas_fork_version,
            gloas_fork_epoch: unopt(s.gloas_fork_epoch),
            seconds_per_slot: s.seconds_per_slot,
            min_validator_withdrawability_delay: s.min_validator_withdrawability_delay.as_u64(),
            shard_committee_period: s.shard_committee_period,
            ejection_balance: s.ejection_balance,
            min_per_epoch_churn_limit: s.min_per_epoch_churn_limit,
            churn_limit_quotient: s.churn_limit_quotient,
            deposit_chain_id: s.deposit_chain_id,
            deposit_network_id: s.deposit_network_id,
            min_per_epoch_churn_limit_electra: s.min_per_epoch_churn_limit_electra,
            max_per_epoch_activation_exit_churn_limit: s.max_per_epoch_activation_exit_churn_limit,
        }
    }
    pub fn apply_to_chain_spec<E: EthSpec>(&self, base: &ChainSpec) -> Option<ChainSpec> {
        let preset = if E::slots_per_epoch() == 32 { "mainnet" } else { "minimal" };
        if self.preset_base != preset {
            return None;
        }
        Some(ChainSpec {
            config_name: self.config_name.clone(),
            min_genesis_active_validator_count: self.min_genesis_active_validator_count,
            genesis_fork_version: self.genesis_fork_version,
            altair_fork_version: self.altair_fork_version,
            altair_fork_epoch: opt(self.altair_fork_epoch),
            bellatrix_fork_version: self.bellatrix_fork_version,
            bellatrix_fork_epoch: opt(self.bellatrix_fork_epoch),
            capella_fork_version: self.capella_fork_version,
            capella_fork_epoch: opt(self.capella_fork_epoch),
            deneb_fork_version: self.deneb_fork_version,
            deneb_fork_epoch: opt(self.deneb_fork_epoch),
            electra_fork_version: self.electra_fork_version,
            electra_fork_epoch: opt(self.electra_fork_epoch),
            fulu_fork_version: self.fulu_fork_version,
            fulu_fork_epoch: opt(self.fulu_fork_epoch),
            gloas_fork_version: self.gloas_fork_version,
            gloas_fork_epoch: opt(self.gloas_fork_epoch),
            seconds_per_slot: self.seconds_per_slot,
            min_validator_withdrawability_delay: Epoch::new(self.min_validator_withdrawability_delay),
            shard_committee_period: self.shard_committee_period,
            ejection_balance: self.ejection_balance,
            min_per_epoch_churn_limit: self.min_per_epoch_churn_limit,
            churn_limit_quotient: self.churn_limit_quotient,
            deposit_chain_id: self.deposit_chain_id,
            deposit_network_id: self.deposit_network_id,
            min_per_epoch_churn_limit_electra: self.min_per_epoch_churn_limit_electra,
            max_per_epoch_activation_exit_churn_limit: self.max_per_epoch_activation_exit_churn_limit,
            ..base.clone()
        })
    }
}
