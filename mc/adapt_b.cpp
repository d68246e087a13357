#include "beacon-chain/beacon_block.hpp"
#include "adapt.hpp"
#define C(T) v.push_back(ops_of<eth::T>(#T, schemas().at(#T), true))
void register_b(std::vector<TypeOps>& v) {
    C(BeaconBlockHeader); C(BeaconBlockBody); C(BeaconBlock); C(SignedBeaconBlockHeader); C(SignedBeaconBlock); C(ProposerSlashing); C(AttesterSlashing);
    C(VoluntaryExit); C(SignedVoluntaryExit);
}
