#include "beacon-chain/attestation.hpp"
#include "beacon-chain/deposits.hpp"
#include "beacon-chain/eth1data.hpp"
#include "beacon-chain/validator.hpp"
#include "common/containers.hpp"
#include "adapt.hpp"
#define C(T) v.push_back(ops_of<eth::T>(#T, schemas().at(#T), true))
void register_a(std::vector<TypeOps>& v) {
    C(Fork); C(ForkData); C(Checkpoint); C(SigningData); C(AttestationData); C(IndexedAttestation); C(PendingAttestation); C(Attestation);
    C(DepositMessage); C(DepositData); C(Deposit); C(Eth1Data); C(Validator);
}
