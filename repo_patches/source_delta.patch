From daf53b769b0907d42e6e5ec92c48a060d278e513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 01/22] fix: add the missing helpers/bytes_to_string.hpp and
 includes

common/bytes.hpp includes a header that is not in the tree, and
helpers/bytes_to_int.hpp uses std::uint8_t and std::string_view without
including their headers: nothing but the hasher compiled.
---
 helpers/bytes_to_int.hpp    |  2 ++
 helpers/bytes_to_string.hpp | 42 +++++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+)
 create mode 100644 helpers/bytes_to_string.hpp

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index b3ed1d3..846b217 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -23,7 +23,9 @@
 #include <array>
 #include <concepts>
 #include <cstddef>
+#include <cstdint>
 #include <string>
+#include <string_view>
 
 namespace {
 struct Table {
diff --git a/helpers/bytes_to_string.hpp b/helpers/bytes_to_string.hpp
new file mode 100644
index 0000000..95f5da0
--- /dev/null
+++ b/helpers/bytes_to_string.hpp
@@ -0,0 +1,42 @@
+/*  bytes_to_string.hpp
+ *
+ *  This file is part of Mammon.
+ *  mammon is a greedy and selfish ETH consensus client.
+ *
+ *  Copyright (c) 2021 - Reimundo Heluani (potuz) potuz@potuz.net
+ *
+ *  This program is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  This program is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with this program.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+
+#pragma once
+
+#include <cstdint>
+#include <string>
+
+namespace helpers {
+
+// Lowercase hex representation, prepended with 0x
+template <typename T>
+std::string bytes_to_string(const T &bytes) {
+    constexpr auto digits = "0123456789abcdef";
+    std::string ret{"0x"};
+    for (const std::uint8_t byte : bytes) {
+        ret += digits[byte >> 4];    // NOLINT
+        ret += digits[byte & 0x0f];  // NOLINT
+    }
+    return ret;
+}
+
+}  // namespace helpers
-- 
2.43.0


From c68c0eed8369ecdf746a0d1f20ef87daee242a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 02/22] fix: define HashTree::hasher with its declared type

g++ rejects the placeholder type in the redeclaration of a static member.
---
 ssz/hashtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 8fa375d..43f7b1a 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -103,7 +103,7 @@ void merkleize(const std::vector<Chunk>& vec, std::vector<Chunk>& hash_tree, std
 
 namespace ssz {
 #ifndef CUSTOM_HASHER
-const auto HashTree::hasher = Hasher{};
+const Hasher HashTree::hasher{};
 #endif
 HashTree::HashTree(const std::vector<Chunk>& chunks, std::uint64_t limit) {
     // return early if only one chunk:
-- 
2.43.0


From 1c3b09c1cbefb07cfee72c6167d62da3ef7218d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 03/22] fix: define the slashings before the block body that
 contains them

BeaconBlockBody instantiates lists of ProposerSlashing and AttesterSlashing,
which were incomplete at that point: clang rejects it.
---
 beacon-chain/beacon_block.hpp | 111 +++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 57 deletions(-)

diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index bdc4d32..c9e3de2 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -109,8 +109,60 @@ struct SignedVoluntaryExit : public ssz::Container {
     }
 };
 
-struct ProposerSlashing;
-struct AttesterSlashing;
+struct SignedBeaconBlockHeader : public ssz::Container {
+    BeaconBlockHeader message;
+    BLSSignature signature;
+
+    static constexpr std::size_t ssz_size = 208;
+    std::size_t get_ssz_size() const override { return ssz_size; }
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&message, &signature}); }
+    BytesVector serialize() const override { return serialize_({&message, &signature}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&message, &signature});
+    }
+
+    YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
+
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"message", &message}, {"signature", &signature}});
+    }
+};
+
+struct ProposerSlashing : public ssz::Container {
+    SignedBeaconBlockHeader signed_header_1, signed_header_2;
+
+    static constexpr std::size_t ssz_size = 416;
+    std::size_t get_ssz_size() const override { return ssz_size; }
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&signed_header_1, &signed_header_2}); }
+    BytesVector serialize() const override { return serialize_({&signed_header_1, &signed_header_2}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&signed_header_1, &signed_header_2});
+    }
+
+    YAML::Node encode() const override {
+        return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
+    }
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
+    }
+};
+
+struct AttesterSlashing : public ssz::Container {
+    IndexedAttestation attestation_1, attestation_2;
+
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&attestation_1, &attestation_2}); }
+    BytesVector serialize() const override { return serialize_({&attestation_1, &attestation_2}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&attestation_1, &attestation_2});
+    }
+    YAML::Node encode() const override {
+        return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
+    }
+
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
+    }
+};
 
 class BeaconBlockBody : public ssz::Container {
    private:
@@ -229,61 +281,6 @@ class BeaconBlock : public ssz::Container {
     }
 };
 
-struct SignedBeaconBlockHeader : public ssz::Container {
-    BeaconBlockHeader message;
-    BLSSignature signature;
-
-    static constexpr std::size_t ssz_size = 208;
-    std::size_t get_ssz_size() const override { return ssz_size; }
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&message, &signature}); }
-    BytesVector serialize() const override { return serialize_({&message, &signature}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&message, &signature});
-    }
-
-    YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
-
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"message", &message}, {"signature", &signature}});
-    }
-};
-
-struct ProposerSlashing : public ssz::Container {
-    SignedBeaconBlockHeader signed_header_1, signed_header_2;
-
-    static constexpr std::size_t ssz_size = 416;
-    std::size_t get_ssz_size() const override { return ssz_size; }
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&signed_header_1, &signed_header_2}); }
-    BytesVector serialize() const override { return serialize_({&signed_header_1, &signed_header_2}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&signed_header_1, &signed_header_2});
-    }
-
-    YAML::Node encode() const override {
-        return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
-    }
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
-    }
-};
-
-struct AttesterSlashing : public ssz::Container {
-    IndexedAttestation attestation_1, attestation_2;
-
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&attestation_1, &attestation_2}); }
-    BytesVector serialize() const override { return serialize_({&attestation_1, &attestation_2}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&attestation_1, &attestation_2});
-    }
-    YAML::Node encode() const override {
-        return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
-    }
-
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
-    }
-};
-
 struct SignedBeaconBlock : public ssz::Container {
     BeaconBlock message;
     BLSSignature signature;
-- 
2.43.0


From dd703b9ba1997342d0fea8e28407013dddcaad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 04/22] fix: write bitlists and bitvectors as hexadecimal
 digits

to_string streamed each byte as a character, so the YAML encoding of every
container with a bitfield could not be read back. It also wrote the flags of
std::cout, which is shared by all threads.
---
 common/bitlist.cpp   | 13 +++----------
 common/bitvector.hpp | 10 ++--------
 2 files changed, 5 insertions(+), 18 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index acc70d0..5b362ad 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -23,12 +23,11 @@
 
 #include <bit>
 #include <cstdint>
-#include <iomanip>
-#include <iostream>
-#include <sstream>
+#include <stdexcept>
 
 #include "config.hpp"
 #include "helpers/bytes_to_int.hpp"
+#include "helpers/bytes_to_string.hpp"
 #include "ssz/hashtree.hpp"
 
 namespace eth {
@@ -78,13 +77,7 @@ void Bitlist::from_hexstring(const std::string& str) {
 }
 
 std::string Bitlist::to_string() const {
-    std::stringstream os;
-    std::ios_base::fmtflags save = std::cout.flags();
-    auto serial = this->serialize();
-    os << "0x";
-    for (auto i = serial.cbegin(); i != serial.cend(); ++i) os << std::setfill('0') << std::setw(2) << std::hex << *i;
-    std::cout.flags(save);
-    return os.str();
+    return helpers::bytes_to_string(this->serialize());
 };
 
 YAML::Node Bitlist::encode() const {
diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 276045f..3a888bc 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -27,6 +27,7 @@
 #include <iostream>
 
 #include "common/bytes.hpp"
+#include "helpers/bytes_to_string.hpp"
 #include "ssz/ssz.hpp"
 #include "ssz/ssz_container.hpp"
 #include "yaml-cpp/yaml.h"
@@ -61,14 +62,7 @@ class Bitvector : public ssz::Container {
     }
 
     std::string to_string() const {
-        std::stringstream os;
-        std::ios_base::fmtflags save = std::cout.flags();
-        auto serial = this->serialize();
-        os << "0x";
-        for (auto i = serial.cbegin(); i != serial.cend(); ++i)
-            os << std::setfill('0') << std::setw(2) << std::hex << *i;
-        std::cout.flags(save);
-        return os.str();
+        return helpers::bytes_to_string(this->serialize());
     };
 
     friend std::ostream &operator<<(std::ostream &os, const Bitvector<N> &m_bits) {
-- 
2.43.0


From 7d75b8155f9a406c40fc335497394264f714895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 05/22] fix: compare containers by value

Eighteen containers and the three sequence templates had no operator== of
their own, so they used that of ssz::Container, which is always true: any two
values were equal and a double vote was never slashable.
---
 beacon-chain/attestation.hpp  |  8 ++++++++
 beacon-chain/beacon_block.hpp | 12 ++++++++++++
 beacon-chain/deposits.hpp     |  6 ++++++
 beacon-chain/eth1data.hpp     |  2 ++
 beacon-chain/validator.hpp    |  2 ++
 common/containers.hpp         | 12 ++++++++++++
 6 files changed, 42 insertions(+)

diff --git a/beacon-chain/attestation.hpp b/beacon-chain/attestation.hpp
index b31950b..84e5861 100644
--- a/beacon-chain/attestation.hpp
+++ b/beacon-chain/attestation.hpp
@@ -44,6 +44,8 @@ struct AttestationData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_slashable(const AttestationData&) const;
 
+    bool operator==(const AttestationData &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -58,6 +60,8 @@ struct IndexedAttestation : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_valid(const eth::BeaconState& state) const; 
 
+    bool operator==(const IndexedAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -72,6 +76,8 @@ struct PendingAttestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
 
+    bool operator==(const PendingAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -85,6 +91,8 @@ struct Attestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     
+    bool operator==(const Attestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index c9e3de2..88d8c61 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -121,6 +121,8 @@ struct SignedBeaconBlockHeader : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlockHeader &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
@@ -139,6 +141,8 @@ struct ProposerSlashing : public ssz::Container {
         return deserialize_(it, end, {&signed_header_1, &signed_header_2});
     }
 
+    bool operator==(const ProposerSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
     }
@@ -155,6 +159,8 @@ struct AttesterSlashing : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&attestation_1, &attestation_2});
     }
+    bool operator==(const AttesterSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
     }
@@ -211,6 +217,8 @@ class BeaconBlockBody : public ssz::Container {
                              &attestations_, &deposits_, &voluntary_exits_});
     }
 
+    bool operator==(const BeaconBlockBody &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"randao_reveal", &randao_reveal_},
                         {"eth1_data", &eth1_data_},
@@ -264,6 +272,8 @@ class BeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&slot_, &proposer_index_, &parent_root_, &state_root_, &body_});
     }
 
+    bool operator==(const BeaconBlock &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"slot", &slot_},
                         {"proposer_index", &proposer_index_},
@@ -291,6 +301,8 @@ struct SignedBeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlock &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
diff --git a/beacon-chain/deposits.hpp b/beacon-chain/deposits.hpp
index 5df397a..b68f124 100644
--- a/beacon-chain/deposits.hpp
+++ b/beacon-chain/deposits.hpp
@@ -43,6 +43,8 @@ struct DepositMessage : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount});
     }
+    bool operator==(const DepositMessage &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey}, {"withdrawal_credentials", &withdrawal_credentials}, {"amount", &amount}});
     }
@@ -71,6 +73,8 @@ struct DepositData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount, &signature});
     }
+    bool operator==(const DepositData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey},
                         {"withdrawal_credentials", &withdrawal_credentials},
@@ -98,6 +102,8 @@ struct Deposit : public ssz::Container {
         return deserialize_(it, end, {&proof, &data});
     }
 
+    bool operator==(const Deposit &) const = default;
+
     YAML::Node encode() const override { return encode_({{"proof", &proof}, {"data", &data}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"proof", &proof}, {"data", &data}}); }
diff --git a/beacon-chain/eth1data.hpp b/beacon-chain/eth1data.hpp
index 24503ae..eff7de4 100644
--- a/beacon-chain/eth1data.hpp
+++ b/beacon-chain/eth1data.hpp
@@ -38,6 +38,8 @@ struct Eth1Data : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&deposit_root, &deposit_count, &block_hash});
     }
+    bool operator==(const Eth1Data &) const = default;
+
     YAML::Node encode() const override {
         return encode_(
             {{"deposit_root", &deposit_root}, {"deposit_count", &deposit_count}, {"block_hash", &block_hash}});
diff --git a/beacon-chain/validator.hpp b/beacon-chain/validator.hpp
index 0b202f2..0267477 100644
--- a/beacon-chain/validator.hpp
+++ b/beacon-chain/validator.hpp
@@ -46,6 +46,8 @@ class Validator : public ssz::Container {
     bool is_eligible_for_activation_queue() const noexcept;
     bool is_slashable(const Epoch& epoch) const noexcept;
 
+    bool operator==(const Validator &) const = default;
+
     YAML::Node encode() const override; 
     bool decode(const YAML::Node &node) override;
 };
diff --git a/common/containers.hpp b/common/containers.hpp
index e044eea..593785d 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -89,6 +89,8 @@ class VectorFixedSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const VectorFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::array<T, N>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::array<T, N>>::decode(node, m_arr); }
 };
@@ -153,6 +155,8 @@ class ListFixedSizedParts : public ssz::Container {
         }
         return true;
     }
+    bool operator==(const ListFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
 };
@@ -228,6 +232,8 @@ class ListVariableSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const ListVariableSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
 };
@@ -279,6 +285,8 @@ struct ForkData : public ssz::Container {
         return deserialize_(it, end, {&current_version, &genesis_validators_root});
     }
 
+    bool operator==(const ForkData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"current_version", &current_version}, {"genesis_validators_root", &genesis_validators_root}});
     }
@@ -301,6 +309,8 @@ struct Checkpoint : public ssz::Container {
         return deserialize_(it, end, {&epoch, &root});
     }
 
+    bool operator==(const Checkpoint &) const = default;
+
     YAML::Node encode() const override { return encode_({{"epoch", &epoch}, {"root", &root}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"epoch", &epoch}, {"root", &root}}); }
@@ -319,6 +329,8 @@ struct SigningData : public ssz::Container {
         return deserialize_(it, end, {&object_root, &domain});
     }
 
+    bool operator==(const SigningData &) const = default;
+
     YAML::Node encode() const override { return encode_({{"object_root", &object_root}, {"domain", &domain}}); }
 
     bool decode(const YAML::Node &node) override {
-- 
2.43.0


From 5ff1a9f00746ec3b60d3e262e283433c44aea7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 06/22] fix: refuse invalid bitlist encodings

An empty encoding read the byte before the range, one without a delimiter bit
lost its bits, and one longer than the limit was accepted.
---
 common/bitlist.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 5b362ad..675337f 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -49,10 +49,15 @@ std::vector<std::uint8_t> Bitlist::serialize() const {
     return ret;
 }
 bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
+    m_arr.clear();
+    if (it == end) return false;
     auto last = end;
     --last;
+    // The delimiter bit is in the last byte
+    if (*last == 0) return false;
     int msb = std::countl_zero(*last);
-    m_arr.clear();
+    const std::size_t size = constants::BITS_PER_BYTE * std::distance(it, last) + constants::BITS_PER_BYTE - 1 - msb;
+    if (limit_ && size > limit_) return false;
 
     for (auto i = it; i != last; ++i)
         for (auto j = 0; j < constants::BITS_PER_BYTE; ++j) m_arr.push_back((*i >> j) & 1);
@@ -73,7 +78,7 @@ void Bitlist::from_hexstring(const std::string& str) {
         buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
         hex.push_back(buffer);
     }
-    deserialize(hex.begin(), hex.end());
+    if (!deserialize(hex.begin(), hex.end())) throw std::invalid_argument("string is not a valid bitlist");
 }
 
 std::string Bitlist::to_string() const {
-- 
2.43.0


From db558a90a1266ebad1e45bbd1b1e11167fe91ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 07/22] fix: refuse bitvector encodings with padding bits set

Two different encodings decoded to the same value.
---
 common/bitvector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 3a888bc..a546495 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -76,6 +76,8 @@ class Bitvector : public ssz::Container {
     }
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         if (std::distance(it, end) != (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE) return false;
+        if constexpr (N % constants::BITS_PER_BYTE != 0)
+            if (*std::prev(end) >> (N % constants::BITS_PER_BYTE)) return false;
         for (auto i = it; i != end; ++i)
             for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * std::distance(it, i) + j < N;
                  ++j)
-- 
2.43.0


From a48594b0266d9fc320d991a283bb111899f62065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 08/22] fix: initialize bitvectors to zero

The justification bits of a default constructed state were indeterminate.
---
 common/bitvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index a546495..5a748cc 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -36,7 +36,7 @@ namespace eth {
 template <unsigned N>
 class Bitvector : public ssz::Container {
    private:
-    std::array<bool, N> m_arr;
+    std::array<bool, N> m_arr{};
 
    public:
     static constexpr std::size_t ssz_size = (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE;
-- 
2.43.0


From 870d44105790b082703f830fb92bb9e5d9eb76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 09/22] fix: refuse trailing bytes after a fixed sized
 container

---
 ssz/ssz_container.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssz/ssz_container.cpp b/ssz/ssz_container.cpp
index 13207eb..4aba163 100644
--- a/ssz/ssz_container.cpp
+++ b/ssz/ssz_container.cpp
@@ -100,9 +100,9 @@ bool Container::deserialize_(SSZIterator it, SSZIterator end, const std::vector<
             it += constants::BYTES_PER_LENGTH_OFFSET;
         }
     }
-    if (last_offset)
-        if (!last_variable_part->deserialize(begin + last_offset, end)) return false;
-    return true;
+    if (last_offset) return last_variable_part->deserialize(begin + last_offset, end);
+    // without variable sized parts nothing can follow
+    return it == end;
 }
 
 std::vector<Chunk> Container::hash_tree() const {
-- 
2.43.0


From 083014fd706376a920091e36df25c1ef2e33732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 10/22] fix: refuse to decode lists longer than their limit

---
 common/containers.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/containers.hpp b/common/containers.hpp
index 593785d..3af7660 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -147,6 +147,7 @@ class ListFixedSizedParts : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         m_arr.clear();
         if (std::distance(it, end) % T::ssz_size) return false;
+        if (limit_ && std::distance(it, end) / T::ssz_size > limit_) return false;
 
         for (auto i = it; i != end; i += T::ssz_size) {
             T obj;
@@ -211,6 +212,7 @@ class ListVariableSizedParts : public ssz::Container {
         auto first_offset = helpers::to_integer_little_endian<std::uint32_t>(&*it);
         if (first_offset < constants::BYTES_PER_LENGTH_OFFSET) return false;
         if (std::distance(start, end) < first_offset) return false;
+        if (limit_ && first_offset / constants::BYTES_PER_LENGTH_OFFSET > limit_) return false;
         auto last_offset = first_offset;
         it += constants::BYTES_PER_LENGTH_OFFSET;
 
-- 
2.43.0


From ef0a3dddeb90f030c435962c0ae04673dc7ebcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 11/22] fix: refuse to merkleize more chunks than the limit

The buffer for the tree is sized by the limit: the excess was written past
its end.
---
 ssz/hashtree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 43f7b1a..a515121 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -106,6 +106,7 @@ namespace ssz {
 const Hasher HashTree::hasher{};
 #endif
 HashTree::HashTree(const std::vector<Chunk>& chunks, std::uint64_t limit) {
+    if (limit != 0 && chunks.size() > limit) throw std::out_of_range("more chunks than the limit");
     // return early if only one chunk:
     if (limit <= 1 && chunks.size() == 1)
         hash_tree_ = chunks;
-- 
2.43.0


From e9ea7e83af3bdd6309f412628f5d9a380a28177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 12/22] fix: keep zero hashes for every depth a limit can have

A limit above 2^42 chunks read past the end of the array.
---
 ssz/hashtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index a515121..ac2d5b7 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -39,7 +39,7 @@ Chunk hash_2_chunks(const Chunk& first, const Chunk& second, const Hasher& hashe
     return ret;
 }
 // clang-format off
-const auto ZERO_HASH_DEPTH{42};
+const auto ZERO_HASH_DEPTH{64};
 constexpr Chunk zero_hash{};
 
 template <std::size_t N> requires(N > 0)
-- 
2.43.0


From 74c1904c1f79f4275b4930dff1fb45e8c0995fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 13/22] fix: keep characters above 0x7f inside the hexadecimal
 table

---
 helpers/bytes_to_int.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index 846b217..e75cb85 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -29,7 +29,7 @@
 
 namespace {
 struct Table {
-    std::array<long long, 128> tab;
+    std::array<long long, 256> tab;
     constexpr Table() : tab{} {
         tab['1'] = 1;
         tab['2'] = 2;
@@ -53,7 +53,7 @@ struct Table {
         tab['f'] = 15;
         tab['F'] = 15;
     }
-    constexpr long long operator[](char const idx) const { return tab[(std::size_t)idx]; }
+    constexpr long long operator[](unsigned char const idx) const { return tab[idx]; }
 } constexpr table;
 }  // namespace
 
@@ -66,7 +66,7 @@ requires(std::unsigned_integral<T>) T to_integer_little_endian(const std::uint8_
     return *ptr;
 }
 
-constexpr int hextoint(char number) { return table[(std::size_t)number]; }
+constexpr int hextoint(char number) { return table[(unsigned char)number]; }
 
 constexpr int strhex2int(std::string_view const &str) {
     int ret = 0;
-- 
2.43.0


From d33cd6b2b4b25ccab3a1015896f923157b665907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 14/22] fix: report only the SHA-256 implementations the CPU
 can run

The SSE implementation executes AVX instructions, so it was reported on CPUs
where it is an illegal instruction. On a CPU without cpuid leaf 7 the feature
bits were read uninitialized.
---
 ssz/hasher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssz/hasher.cpp b/ssz/hasher.cpp
index e488227..ef9f653 100644
--- a/ssz/hasher.cpp
+++ b/ssz/hasher.cpp
@@ -42,14 +42,15 @@ void Hasher::sha256_sse(unsigned char* output, const unsigned char* input, std::
 
 const Hasher::IMPL Hasher::implemented() {
     IMPL ret = IMPL::NONE; 
-    std::uint32_t a, b, c, d;  // NOLINT
+    std::uint32_t a = 0, b = 0, c = 0, d = 0;
     __get_cpuid_count(CPUID_LEAF, 0, &a, &b, &c, &d);
     if (b & bit_SHA) ret = ret | IMPL::SHA;
     if (b & bit_AVX2) ret = ret | IMPL::AVX2;
 
     __get_cpuid(1, &a, &b, &c, &d);
     if (c & bit_AVX) ret = ret |  IMPL::AVX;
-    if (c & bit_SSE3) ret = ret | IMPL::SSE;
+    // the one block routine uses AVX instructions
+    if ((c & bit_SSE3) && (c & bit_AVX)) ret = ret | IMPL::SSE;
 
     return ret;
 }
-- 
2.43.0


From 615d88fca2353b588a74100877730f802ebba1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 15/22] fix: write the minimal genesis fork version in byte
 order

The integer constructor is little endian: it gave 0x01000000.
---
 config/minimal.hpp.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/minimal.hpp.in b/config/minimal.hpp.in
index 613fcdd..32abd76 100644
--- a/config/minimal.hpp.in
+++ b/config/minimal.hpp.in
@@ -30,7 +30,7 @@ namespace constants {
 
 constexpr std::uint64_t MIN_GENESIS_ACTIVE_VALIDATOR_COUNT = 64;
 constexpr std::uint64_t MIN_GENESIS_TIME = 1578009600;
-constexpr const eth::Version GENESIS_FORK_VERSION{0x00000001};
+constexpr const eth::Version GENESIS_FORK_VERSION{"0x00000001"};
 constexpr std::uint64_t GENESIS_DELAY = 300;
 
 // ALTAIR_FORK_VERSION: 0x01000001
-- 
2.43.0


From cc22961b3654cdd266be8841b40c51dd7db94f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:59 +0000
Subject: [PATCH 16/22] fix: keep the intermediate SHA-NI states on the stack

sha256_shani saved the state after the data rounds of each pair of blocks in
static storage: two threads hashing at the same time corrupted each other's
digests.
---
 ssz/sha256_shani.asm | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/ssz/sha256_shani.asm b/ssz/sha256_shani.asm
index 43265de..a332adb 100644
--- a/ssz/sha256_shani.asm
+++ b/ssz/sha256_shani.asm
@@ -70,13 +70,17 @@
 %define SHA256CONSTANTS	rax
 
 
-%ifdef WINABI
 %define RSPSAVE		r9
 
 struc frame
+.abef_save_a:	resdq	1
+.cdgh_save_a:	resdq	1
+.abef_save_b:	resdq	1
+.cdgh_save_b:	resdq	1
+%ifdef WINABI
 .xmm_save:	resdq	5
-endstruc
 %endif
+endstruc
 
 %define MSG		xmm0
 %define STATE0		xmm1
@@ -113,11 +117,11 @@ section .text
 global sha256_shani:function
 align 32
 sha256_shani:
-%ifdef WINABI
 	mov		RSPSAVE, rsp
 	sub		rsp, frame_size
 	and		rsp, ~0xF
 
+%ifdef WINABI
 	movdqa		[rsp + frame.xmm_save + 0*16], xmm6
 	movdqa		[rsp + frame.xmm_save + 1*16], xmm7
 	movdqa		[rsp + frame.xmm_save + 2*16], xmm8
@@ -477,10 +481,10 @@ sha256_shani:
         ;; Rounds with PADDING
         
 	;; Save hash values for addition after rounds
-	movdqa		[ABEF_SAVEa wrt rip], STATE0
-	movdqa		[CDGH_SAVEa wrt rip], STATE1
-	movdqa		[ABEF_SAVEb wrt rip], STATE0b
-	movdqa		[CDGH_SAVEb wrt rip], STATE1b
+	movdqa		[rsp + frame.abef_save_a], STATE0
+	movdqa		[rsp + frame.cdgh_save_a], STATE1
+	movdqa		[rsp + frame.abef_save_b], STATE0b
+	movdqa		[rsp + frame.cdgh_save_b], STATE1b
 
 	;; Rounds 0-3
 	movdqa		MSG, [SHA256PADDING + 0*16]
@@ -608,10 +612,10 @@ sha256_shani:
 		sha256rnds2	STATE0, STATE1
 		sha256rnds2	STATE0b, STATE1b
 
-	paddd		STATE0, [ABEF_SAVEa wrt rip]
-	paddd		STATE1, [CDGH_SAVEa wrt rip]
-	paddd           STATE0b, [ABEF_SAVEb wrt rip]
-	paddd		STATE1b, [CDGH_SAVEb wrt rip]
+	paddd		STATE0, [rsp + frame.abef_save_a]
+	paddd		STATE1, [rsp + frame.cdgh_save_a]
+	paddd           STATE0b, [rsp + frame.abef_save_b]
+	paddd		STATE1b, [rsp + frame.cdgh_save_b]
 
 
 	;; Write hash values back in the correct order
@@ -965,8 +969,8 @@ sha256_shani:
 	movdqa		xmm8,  [rsp + frame.xmm_save + 2*16]
 	movdqa		xmm9,  [rsp + frame.xmm_save + 3*16]
 	movdqa		xmm10, [rsp + frame.xmm_save + 4*16]
-	mov		rsp, RSPSAVE
 %endif
+	mov		rsp, RSPSAVE
 
 	ret	
 	
@@ -1013,13 +1017,3 @@ PADDING:
         dd      0x521afaca, 0x31338431, 0x6ed41a95, 0x6d437890
         dd      0xc39c91f2, 0x9eccabbd, 0xb5c9a0e6, 0x532fb63c
         dd      0xd2c741c6, 0x7237ea3, 0xa4954b68, 0x4c191d76
-
-section .data
-
-align 64
-
-ABEF_SAVEa:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEa:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-ABEF_SAVEb:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEb:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-
-- 
2.43.0


From 29e96942be872ec8ab8ddd8c31679a89d83b5806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 17/22] fix: pack booleans when Merkleizing vectors and lists
 of them

SSZ packs every basic type into chunks: booleans got a chunk each.
---
 common/containers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/containers.hpp b/common/containers.hpp
index 3af7660..925f765 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -25,6 +25,7 @@
 #include <cstdint>
 #include <iterator>
 
+#include "common/boolean.hpp"
 #include "common/slot.hpp"
 #include "ssz/hashtree.hpp"
 #include "ssz/ssz.hpp"
@@ -35,7 +36,7 @@ namespace eth
 
 {
 template <class T>
-concept BasicObject = std::unsigned_integral<T> || std::is_same_v<T, Slot>;
+concept BasicObject = std::unsigned_integral<T> || std::is_same_v<T, Slot> || std::is_same_v<T, Boolean>;
 
 template <class T, std::size_t N>
 class VectorFixedSizedParts : public ssz::Container {
-- 
2.43.0


From 7e210b53777f062200ac20a8f78ef1654e9b578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:48 +0000
Subject: [PATCH 18/22] fix: refuse to read from YAML lists longer than their
 limit

---
 common/containers.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/containers.hpp b/common/containers.hpp
index 925f765..07a5382 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -160,7 +160,10 @@ class ListFixedSizedParts : public ssz::Container {
     bool operator==(const ListFixedSizedParts &) const = default;
 
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
-    bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
+    bool decode(const YAML::Node &node) override {
+        if (!YAML::convert<std::vector<T>>::decode(node, m_arr)) return false;
+        return !limit_ || m_arr.size() <= limit_;
+    }
 };
 
 template <class T>
@@ -238,7 +241,10 @@ class ListVariableSizedParts : public ssz::Container {
     bool operator==(const ListVariableSizedParts &) const = default;
 
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
-    bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
+    bool decode(const YAML::Node &node) override {
+        if (!YAML::convert<std::vector<T>>::decode(node, m_arr)) return false;
+        return !limit_ || m_arr.size() <= limit_;
+    }
 };
 
 struct Fork : public ssz::Container {
-- 
2.43.0


From 0d15cec8efe3a92d22dbab670939c8683c356efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 19/22] fix: compare Bytes of different sizes

---
 common/bytes.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/bytes.hpp b/common/bytes.hpp
index 182643b..c55423f 100644
--- a/common/bytes.hpp
+++ b/common/bytes.hpp
@@ -118,8 +118,10 @@ class Bytes : public ssz::Container {
 
     template <std::size_t M>
     constexpr bool operator==(Bytes<M> const &r) const {
-        if (N != M) return false;
-        return m_arr == r.to_array();
+        if constexpr (N != M)
+            return false;
+        else
+            return m_arr == r.to_array();
     }
 
     constexpr bool operator==(std::vector<std::uint8_t> const &r) const {
-- 
2.43.0


From a50da2e8a99b2cdc2d826e48c7cdb680405677f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 20/22] fix: refuse to read bit vectors from texts of the wrong
 length or with padding bits set

---
 common/bitvector.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 5a748cc..7d32f21 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -55,10 +55,7 @@ class Bitvector : public ssz::Container {
             buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
             hex.push_back(buffer);
         }
-        m_arr.fill(0);
-        for (int i = 0; i < hex.size(); ++i)
-            for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * i + j < N; ++j)
-                m_arr[constants::BITS_PER_BYTE * i + j] = ((hex[i] >> j) & 1);
+        if (!deserialize(hex.begin(), hex.end())) throw std::invalid_argument("string is not a valid bitvector");
     }
 
     std::string to_string() const {
-- 
2.43.0


From a2d331be0c499bcbb16b61f6df5300523b47a2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:17 +0000
Subject: [PATCH 21/22] fix: initialize the hasher and the zero hashes before
 the static objects of other files

---
 ssz/hashtree.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index ac2d5b7..dd464dd 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -52,7 +52,8 @@ auto zero_hash_array_helper() {
 }
 // clang-format on
 
-const auto zero_hash_array = zero_hash_array_helper<ZERO_HASH_DEPTH>();
+// initialized early: static objects of other files may be hashed before main
+[[gnu::init_priority(101)]] const std::array<Chunk, ZERO_HASH_DEPTH> zero_hash_array = zero_hash_array_helper<ZERO_HASH_DEPTH>();
 
 /**
  *   \brief Packs a vector of bytes into chunks of 32 bytes
@@ -103,7 +104,7 @@ void merkleize(const std::vector<Chunk>& vec, std::vector<Chunk>& hash_tree, std
 
 namespace ssz {
 #ifndef CUSTOM_HASHER
-const Hasher HashTree::hasher{};
+[[gnu::init_priority(101)]] const Hasher HashTree::hasher{};
 #endif
 HashTree::HashTree(const std::vector<Chunk>& chunks, std::uint64_t limit) {
     if (limit != 0 && chunks.size() > limit) throw std::out_of_range("more chunks than the limit");
-- 
2.43.0


From 96485178572194b52657a5bc216de0ca3575b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:55 +0000
Subject: [PATCH 22/22] fix: count the bits of bit lists and the characters of
 texts in std::size_t

---
 common/bitlist.cpp   | 6 +++---
 common/bitvector.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 675337f..309a5a2 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -34,7 +34,7 @@ namespace eth {
 std::vector<ssz::Chunk> Bitlist::hash_tree() const {
     using namespace constants;
     std::vector<std::uint8_t> ret((m_arr.size() + BITS_PER_BYTE - 1) / BITS_PER_BYTE, 0);
-    for (int i = 0; i < m_arr.size(); ++i) ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % BITS_PER_BYTE);
+    for (std::size_t i = 0; i < m_arr.size(); ++i) ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % BITS_PER_BYTE);
     auto limit = (limit_ + BITS_PER_BYTE * BYTES_PER_CHUNK - 1) / (BITS_PER_BYTE * BYTES_PER_CHUNK);
     ssz::HashTree ht{ret, limit};
     ht.mix_in(m_arr.size());
@@ -43,7 +43,7 @@ std::vector<ssz::Chunk> Bitlist::hash_tree() const {
 
 std::vector<std::uint8_t> Bitlist::serialize() const {
     std::vector<std::uint8_t> ret(m_arr.size() / constants::BITS_PER_BYTE + 1, 0);
-    for (int i = 0; i < m_arr.size(); ++i)
+    for (std::size_t i = 0; i < m_arr.size(); ++i)
         ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % constants::BITS_PER_BYTE);
     ret.back() |= 1 << (m_arr.size() % constants::BITS_PER_BYTE);
     return ret;
@@ -74,7 +74,7 @@ void Bitlist::from_hexstring(const std::string& str) {
 
     std::uint8_t buffer = 0;
     std::vector<std::uint8_t> hex;
-    for (int offset = 2; offset < str.length(); offset += 2) {
+    for (std::size_t offset = 2; offset < str.length(); offset += 2) {
         buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
         hex.push_back(buffer);
     }
diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 7d32f21..e5a7a08 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -51,7 +51,7 @@ class Bitvector : public ssz::Container {
 
         std::uint8_t buffer = 0;
         std::vector<std::uint8_t> hex;
-        for (int offset = 2; offset < str.length(); offset += 2) {
+        for (std::size_t offset = 2; offset < str.length(); offset += 2) {
             buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
             hex.push_back(buffer);
         }
-- 
2.43.0

