// The phase0 containers as the consensus specification defines them (v1.1), for both presets.
#pragma once
#include "ref_ssz.hpp"
namespace phase0 {
using namespace ref;
struct Preset {
    std::uint64_t slots_per_historical_root, epochs_per_historical_vector, epochs_per_slashings_vector, eth1_votes, slots_per_epoch;
};
inline constexpr Preset minimal{64, 64, 64, 4 * 8, 8}, mainnet{8192, 65536, 8192, 64 * 32, 32};
inline constexpr std::uint64_t max_validators_per_committee = 2048, historical_roots_limit = 16777216, validator_registry_limit = 1099511627776ull,
                               max_proposer_slashings = 16, max_attester_slashings = 2, max_attestations = 128, max_deposits = 16, max_voluntary_exits = 16;

inline std::map<std::string, const Type*> containers(const Preset& p) {
    std::map<std::string, const Type*> m;
    auto add = [&](const char* n, std::vector<std::pair<std::string, const Type*>> f) { return m[n] = cont(n, std::move(f)); };
    auto root = bytes(32), b4 = bytes(4), sig = bytes(96), pub = bytes(48), u = u64();
    auto fork = add("Fork", {{"previous_version", b4}, {"current_version", b4}, {"epoch", u}});
    add("ForkData", {{"current_version", b4}, {"genesis_validators_root", root}});
    auto cp = add("Checkpoint", {{"epoch", u}, {"root", root}});
    add("SigningData", {{"object_root", root}, {"domain", root}});
    auto validator = add("Validator", {{"pubkey", pub}, {"withdrawal_credentials", root}, {"effective_balance", u}, {"slashed", boolean()},
                                       {"activation_eligibility_epoch", u}, {"activation_epoch", u}, {"exit_epoch", u}, {"withdrawable_epoch", u}});
    auto ad = add("AttestationData", {{"slot", u}, {"index", u}, {"beacon_block_root", root}, {"source", cp}, {"target", cp}});
    auto ia = add("IndexedAttestation", {{"attesting_indices", list(u, max_validators_per_committee)}, {"data", ad}, {"signature", sig}});
    auto pa = add("PendingAttestation", {{"aggregation_bits", bitlist(max_validators_per_committee)}, {"data", ad}, {"inclusion_delay", u}, {"proposer_index", u}});
    auto eth1 = add("Eth1Data", {{"deposit_root", root}, {"deposit_count", u}, {"block_hash", root}});
    add("DepositMessage", {{"pubkey", pub}, {"withdrawal_credentials", root}, {"amount", u}});
    auto dd = add("DepositData", {{"pubkey", pub}, {"withdrawal_credentials", root}, {"amount", u}, {"signature", sig}});
    auto hdr = add("BeaconBlockHeader", {{"slot", u}, {"proposer_index", u}, {"parent_root", root}, {"state_root", root}, {"body_root", root}});
    auto shdr = add("SignedBeaconBlockHeader", {{"message", hdr}, {"signature", sig}});
    auto ps = add("ProposerSlashing", {{"signed_header_1", shdr}, {"signed_header_2", shdr}});
    auto as = add("AttesterSlashing", {{"attestation_1", ia}, {"attestation_2", ia}});
    auto att = add("Attestation", {{"aggregation_bits", bitlist(max_validators_per_committee)}, {"data", ad}, {"signature", sig}});
    auto dep = add("Deposit", {{"proof", vec(root, 33)}, {"data", dd}});
    auto ve = add("VoluntaryExit", {{"epoch", u}, {"validator_index", u}});
    auto sve = add("SignedVoluntaryExit", {{"message", ve}, {"signature", sig}});
    auto body = add("BeaconBlockBody", {{"randao_reveal", sig}, {"eth1_data", eth1}, {"graffiti", root}, {"proposer_slashings", list(ps, max_proposer_slashings)},
                                        {"attester_slashings", list(as, max_attester_slashings)}, {"attestations", list(att, max_attestations)},
                                        {"deposits", list(dep, max_deposits)}, {"voluntary_exits", list(sve, max_voluntary_exits)}});
    auto blk = add("BeaconBlock", {{"slot", u}, {"proposer_index", u}, {"parent_root", root}, {"state_root", root}, {"body", body}});
    add("SignedBeaconBlock", {{"message", blk}, {"signature", sig}});
    auto hist = vec(root, p.slots_per_historical_root);
    auto atts = list(pa, max_attestations * p.slots_per_epoch);
    add("BeaconState", {{"genesis_time", u}, {"genesis_validators_root", root}, {"slot", u}, {"fork", fork}, {"latest_block_header", hdr}, {"block_roots", hist},
                        {"state_roots", hist}, {"historical_roots", list(root, historical_roots_limit)}, {"eth1_data", eth1}, {"eth1_data_votes", list(eth1, p.eth1_votes)},
                        {"eth1_deposit_index", u}, {"validators", list(validator, validator_registry_limit)}, {"balances", list(u, validator_registry_limit)},
                        {"randao_mixes", vec(root, p.epochs_per_historical_vector)}, {"slashings", vec(u, p.epochs_per_slashings_vector)},
                        {"previous_epoch_attestations", atts}, {"current_epoch_attestations", atts}, {"justification_bits", bitvec(4)},
                        {"previous_justified_checkpoint", cp}, {"current_justified_checkpoint", cp}, {"finalized_checkpoint", cp}});
    return m;
}
}  // namespace phase0
