#include "beacon-chain/beacon_state.hpp"
#include "adapt.hpp"
#define C(T) v.push_back(ops_of<eth::T>(#T, schemas().at(#T), true))
void register_c(std::vector<TypeOps>& v) { C(BeaconState); }
