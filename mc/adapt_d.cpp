// The basic types and the generic sequences.
#include "beacon-chain/beacon_block.hpp"
#include "beacon-chain/validator.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/boolean.hpp"
#include "common/bytes.hpp"
#include "common/containers.hpp"
#include "common/slot.hpp"
#include "adapt.hpp"
using namespace eth;
namespace {
template <std::size_t N> void by(std::vector<TypeOps>& v) { auto t = ref::bytes(N); v.push_back(ops_of<Bytes<N>>(t->name, t)); }
template <unsigned N> void bv(std::vector<TypeOps>& v) { auto t = ref::bitvec(N); v.push_back(ops_of<Bitvector<N>>(t->name, t)); }
template <long long L> void bl(std::vector<TypeOps>& v) { auto t = ref::bitlist(L); v.push_back(ops_of<Bitlist, L>(t->name, t)); }
template <class T, std::size_t N> void ve(std::vector<TypeOps>& v, const ref::Type* e) { auto t = ref::vec(e, N); v.push_back(ops_of<VectorFixedSizedParts<T, N>>(t->name, t)); }
template <class T, long long L> void lf(std::vector<TypeOps>& v, const ref::Type* e) { auto t = ref::list(e, L); v.push_back(ops_of<ListFixedSizedParts<T>, L>(t->name, t)); }
template <class T, long long L> void lv(std::vector<TypeOps>& v, const ref::Type* e) { auto t = ref::list(e, L); v.push_back(ops_of<ListVariableSizedParts<T>, L>(t->name, t)); }
}  // namespace
#if PART == 0
void register_d(std::vector<TypeOps>& v) {
    [[maybe_unused]] auto& s = schemas();
    [[maybe_unused]] auto u = ref::u64();
    v.push_back(ops_of<Slot>("Slot", u));
    v.push_back(ops_of<Boolean>("Boolean", ref::boolean()));
    by<1>(v); by<4>(v); by<8>(v); by<20>(v); by<31>(v); by<32>(v); by<33>(v); by<48>(v); by<64>(v); by<96>(v); by<97>(v); by<300>(v);
    bv<1>(v); bv<2>(v); bv<3>(v); bv<4>(v); bv<5>(v); bv<7>(v); bv<8>(v); bv<9>(v); bv<15>(v); bv<16>(v); bv<31>(v); bv<255>(v); bv<256>(v); bv<257>(v); bv<512>(v); bv<513>(v); bv<1000>(v);
    bl<1>(v); bl<2>(v); bl<3>(v); bl<4>(v); bl<5>(v); bl<7>(v); bl<8>(v); bl<9>(v); bl<16>(v); bl<31>(v); bl<255>(v); bl<256>(v); bl<257>(v); bl<512>(v); bl<513>(v); bl<2048>(v); bl<1099511627776ll>(v);
}
#endif
#if PART == 1
void register_e(std::vector<TypeOps>& v) {
    [[maybe_unused]] auto& s = schemas();
    [[maybe_unused]] auto u = ref::u64();
    ve<Slot, 1>(v, u); ve<Slot, 2>(v, u); ve<Slot, 3>(v, u); ve<Slot, 4>(v, u); ve<Slot, 5>(v, u); ve<Slot, 8>(v, u); ve<Slot, 9>(v, u); ve<Slot, 16>(v, u); ve<Slot, 17>(v, u); ve<Slot, 33>(v, u);
    ve<Boolean, 1>(v, ref::boolean()); ve<Boolean, 5>(v, ref::boolean()); ve<Boolean, 33>(v, ref::boolean());
    ve<Bytes32, 1>(v, ref::bytes(32)); ve<Bytes32, 2>(v, ref::bytes(32)); ve<Bytes32, 3>(v, ref::bytes(32)); ve<Bytes32, 5>(v, ref::bytes(32)); ve<Bytes32, 33>(v, ref::bytes(32));
    ve<Bytes48, 3>(v, ref::bytes(48)); ve<Bytes<33>, 6>(v, ref::bytes(33));
    ve<Checkpoint, 1>(v, s["Checkpoint"]); ve<Checkpoint, 3>(v, s["Checkpoint"]); ve<Validator, 7>(v, s["Validator"]);
}
#endif
#if PART == 2
void register_f(std::vector<TypeOps>& v) {
    [[maybe_unused]] auto& s = schemas();
    [[maybe_unused]] auto u = ref::u64();
    lf<Slot, 1>(v, u); lf<Slot, 3>(v, u); lf<Slot, 4>(v, u); lf<Slot, 5>(v, u); lf<Slot, 16>(v, u); lf<Slot, 17>(v, u); lf<Slot, 100>(v, u); lf<Slot, 2048>(v, u); lf<Slot, 1099511627776ll>(v, u);
    lf<Boolean, 1>(v, ref::boolean()); lf<Boolean, 33>(v, ref::boolean()); lf<Boolean, 64>(v, ref::boolean());
    lf<Bytes32, 1>(v, ref::bytes(32)); lf<Bytes32, 2>(v, ref::bytes(32)); lf<Bytes32, 3>(v, ref::bytes(32)); lf<Bytes32, 8>(v, ref::bytes(32)); lf<Bytes32, 9>(v, ref::bytes(32)); lf<Bytes32, 16777216>(v, ref::bytes(32)); lf<Bytes32, 1099511627776ll>(v, ref::bytes(32));
    lf<Bytes48, 5>(v, ref::bytes(48)); lf<Bytes4, 10>(v, ref::bytes(4));
    lf<Checkpoint, 1>(v, s["Checkpoint"]); lf<Checkpoint, 6>(v, s["Checkpoint"]); lf<Validator, 1099511627776ll>(v, s["Validator"]); lf<Deposit, 16>(v, s["Deposit"]); lf<ProposerSlashing, 16>(v, s["ProposerSlashing"]);
    lv<Attestation, 1>(v, s["Attestation"]); lv<Attestation, 2>(v, s["Attestation"]); lv<Attestation, 3>(v, s["Attestation"]); lv<Attestation, 128>(v, s["Attestation"]);
    lv<PendingAttestation, 1024>(v, s["PendingAttestation"]); lv<IndexedAttestation, 5>(v, s["IndexedAttestation"]); lv<AttesterSlashing, 2>(v, s["AttesterSlashing"]); lv<SignedBeaconBlock, 3>(v, s["SignedBeaconBlock"]);
#ifdef MC_WORK
    // sequences of many sizes, to see how the work grows
    lv<Attestation, 1099511627776ll>(v, s["Attestation"]); lv<IndexedAttestation, 1099511627776ll>(v, s["IndexedAttestation"]);
    by<64>(v); by<128>(v); by<512>(v); by<2048>(v); by<8192>(v); by<32768>(v);
    bv<512>(v); bv<1024>(v); bv<4096>(v); bv<16384>(v); bv<65536>(v); bv<262144>(v);
    ve<Slot, 8>(v, u); ve<Slot, 16>(v, u); ve<Slot, 64>(v, u); ve<Slot, 256>(v, u); ve<Slot, 1024>(v, u); ve<Slot, 4096>(v, u); ve<Slot, 16384>(v, u);
    ve<Boolean, 64>(v, ref::boolean()); ve<Boolean, 512>(v, ref::boolean()); ve<Boolean, 4096>(v, ref::boolean()); ve<Boolean, 32768>(v, ref::boolean());
    ve<Bytes32, 2>(v, ref::bytes(32)); ve<Bytes32, 16>(v, ref::bytes(32)); ve<Bytes32, 128>(v, ref::bytes(32)); ve<Bytes32, 1024>(v, ref::bytes(32)); ve<Bytes32, 8192>(v, ref::bytes(32));
    ve<Validator, 2>(v, s["Validator"]); ve<Validator, 16>(v, s["Validator"]); ve<Validator, 128>(v, s["Validator"]); ve<Validator, 1024>(v, s["Validator"]); ve<Validator, 4096>(v, s["Validator"]);
#endif
}
#endif
