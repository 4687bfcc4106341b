From 1b74edac585878edef5008364fd9725e938eb09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:26 +0000
Subject: [PATCH 01/13] fix: keep the SHA-NI two-block state in registers
 instead of static storage

sha256_shani saved the intermediate state of both lanes in .data, so two
threads (or a signal handler) hashing at the same time corrupted each
other's digests.
---
 ssz/sha256_shani.asm | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/ssz/sha256_shani.asm b/ssz/sha256_shani.asm
index 43265de..55cdb39 100644
--- a/ssz/sha256_shani.asm
+++ b/ssz/sha256_shani.asm
@@ -476,11 +476,12 @@ sha256_shani:
 
         ;; Rounds with PADDING
         
-	;; Save hash values for addition after rounds
-	movdqa		[ABEF_SAVEa wrt rip], STATE0
-	movdqa		[CDGH_SAVEa wrt rip], STATE1
-	movdqa		[ABEF_SAVEb wrt rip], STATE0b
-	movdqa		[CDGH_SAVEb wrt rip], STATE1b
+	;; Save hash values for addition after rounds (the padding rounds need no
+	;; message registers; static storage would be shared between callers)
+	movdqa		MSGTMP0, STATE0
+	movdqa		MSGTMP1, STATE1
+	movdqa		MSGTMP0b, STATE0b
+	movdqa		MSGTMP1b, STATE1b
 
 	;; Rounds 0-3
 	movdqa		MSG, [SHA256PADDING + 0*16]
@@ -608,10 +609,10 @@ sha256_shani:
 		sha256rnds2	STATE0, STATE1
 		sha256rnds2	STATE0b, STATE1b
 
-	paddd		STATE0, [ABEF_SAVEa wrt rip]
-	paddd		STATE1, [CDGH_SAVEa wrt rip]
-	paddd           STATE0b, [ABEF_SAVEb wrt rip]
-	paddd		STATE1b, [CDGH_SAVEb wrt rip]
+	paddd		STATE0, MSGTMP0
+	paddd		STATE1, MSGTMP1
+	paddd           STATE0b, MSGTMP0b
+	paddd		STATE1b, MSGTMP1b
 
 
 	;; Write hash values back in the correct order
@@ -1013,13 +1014,3 @@ PADDING:
         dd      0x521afaca, 0x31338431, 0x6ed41a95, 0x6d437890
         dd      0xc39c91f2, 0x9eccabbd, 0xb5c9a0e6, 0x532fb63c
         dd      0xd2c741c6, 0x7237ea3, 0xa4954b68, 0x4c191d76
-
-section .data
-
-align 64
-
-ABEF_SAVEa:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEa:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-ABEF_SAVEb:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEb:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-
-- 
2.43.0


From 15b5a1335b4e232c5cff5d199ab2112a67051022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 02/13] fix: use only the cpuid registers the CPU actually
 reported

---
 ssz/hasher.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ssz/hasher.cpp b/ssz/hasher.cpp
index e488227..01c4720 100644
--- a/ssz/hasher.cpp
+++ b/ssz/hasher.cpp
@@ -43,13 +43,16 @@ void Hasher::sha256_sse(unsigned char* output, const unsigned char* input, std::
 const Hasher::IMPL Hasher::implemented() {
     IMPL ret = IMPL::NONE; 
     std::uint32_t a, b, c, d;  // NOLINT
-    __get_cpuid_count(CPUID_LEAF, 0, &a, &b, &c, &d);
-    if (b & bit_SHA) ret = ret | IMPL::SHA;
-    if (b & bit_AVX2) ret = ret | IMPL::AVX2;
+    // The registers are only written when the CPU reports the leaf.
+    if (__get_cpuid_count(CPUID_LEAF, 0, &a, &b, &c, &d)) {
+        if (b & bit_SHA) ret = ret | IMPL::SHA;
+        if (b & bit_AVX2) ret = ret | IMPL::AVX2;
+    }
 
-    __get_cpuid(1, &a, &b, &c, &d);
-    if (c & bit_AVX) ret = ret |  IMPL::AVX;
-    if (c & bit_SSE3) ret = ret | IMPL::SSE;
+    if (__get_cpuid(1, &a, &b, &c, &d)) {
+        if (c & bit_AVX) ret = ret |  IMPL::AVX;
+        if (c & bit_SSE3) ret = ret | IMPL::SSE;
+    }
 
     return ret;
 }
-- 
2.43.0


From 5b0f04a45ea0f65921b9b5a4e4d2cbe1f8fea411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 03/13] fix: keep the hexadecimal digit lookup inside its table
 for non-ASCII characters

---
 helpers/bytes_to_int.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index b3ed1d3..682a0e5 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -51,7 +51,10 @@ struct Table {
         tab['f'] = 15;
         tab['F'] = 15;
     }
-    constexpr long long operator[](char const idx) const { return tab[(std::size_t)idx]; }
+    constexpr long long operator[](char const idx) const {
+        const auto i = static_cast<unsigned char>(idx);
+        return i < tab.size() ? tab[i] : 0;
+    }
 } constexpr table;
 }  // namespace
 
@@ -64,7 +67,7 @@ requires(std::unsigned_integral<T>) T to_integer_little_endian(const std::uint8_
     return *ptr;
 }
 
-constexpr int hextoint(char number) { return table[(std::size_t)number]; }
+constexpr int hextoint(char number) { return table[number]; }
 
 constexpr int strhex2int(std::string_view const &str) {
     int ret = 0;
-- 
2.43.0


From d37d096f30ba3f22707e48dd9f6be15d7ede46f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 04/13] fix: write bitlists and bitvectors as hexadecimal
 digits, without touching std::cout

---
 common/bitlist.cpp   | 14 +++++++-------
 common/bitvector.hpp | 15 +++++++--------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index acc70d0..51f8120 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -78,13 +78,13 @@ void Bitlist::from_hexstring(const std::string& str) {
 }
 
 std::string Bitlist::to_string() const {
-    std::stringstream os;
-    std::ios_base::fmtflags save = std::cout.flags();
-    auto serial = this->serialize();
-    os << "0x";
-    for (auto i = serial.cbegin(); i != serial.cend(); ++i) os << std::setfill('0') << std::setw(2) << std::hex << *i;
-    std::cout.flags(save);
-    return os.str();
+    static constexpr char digits[] = "0123456789abcdef";
+    std::string ret{"0x"};
+    for (auto byte : this->serialize()) {
+        ret += digits[byte >> 4];
+        ret += digits[byte & 0xf];
+    }
+    return ret;
 };
 
 YAML::Node Bitlist::encode() const {
diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 276045f..0063bb2 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -61,14 +61,13 @@ class Bitvector : public ssz::Container {
     }
 
     std::string to_string() const {
-        std::stringstream os;
-        std::ios_base::fmtflags save = std::cout.flags();
-        auto serial = this->serialize();
-        os << "0x";
-        for (auto i = serial.cbegin(); i != serial.cend(); ++i)
-            os << std::setfill('0') << std::setw(2) << std::hex << *i;
-        std::cout.flags(save);
-        return os.str();
+        constexpr char digits[] = "0123456789abcdef";
+        std::string ret{"0x"};
+        for (auto byte : this->serialize()) {
+            ret += digits[byte >> 4];
+            ret += digits[byte & 0xf];
+        }
+        return ret;
     };
 
     friend std::ostream &operator<<(std::ostream &os, const Bitvector<N> &m_bits) {
-- 
2.43.0


From b023e93b062baae238dbd5574443b3d91ef7e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 05/13] fix: reject encoded bitlists without a delimiter bit

---
 common/bitlist.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 51f8120..8b3a5a9 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -50,10 +50,13 @@ std::vector<std::uint8_t> Bitlist::serialize() const {
     return ret;
 }
 bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
+    m_arr.clear();
+    // an encoded bitlist ends in the byte that holds its delimiter bit
+    if (it == end) return false;
     auto last = end;
     --last;
+    if (*last == 0) return false;
     int msb = std::countl_zero(*last);
-    m_arr.clear();
 
     for (auto i = it; i != last; ++i)
         for (auto j = 0; j < constants::BITS_PER_BYTE; ++j) m_arr.push_back((*i >> j) & 1);
@@ -74,7 +77,7 @@ void Bitlist::from_hexstring(const std::string& str) {
         buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
         hex.push_back(buffer);
     }
-    deserialize(hex.begin(), hex.end());
+    if (!deserialize(hex.begin(), hex.end())) throw std::invalid_argument("string is not a bitlist");
 }
 
 std::string Bitlist::to_string() const {
-- 
2.43.0


From 9a6a10b3b745980d78c353c027d81099adbdf8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 06/13] fix: reject trailing bytes after a container of fixed
 size

---
 ssz/ssz_container.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ssz/ssz_container.cpp b/ssz/ssz_container.cpp
index 13207eb..5164755 100644
--- a/ssz/ssz_container.cpp
+++ b/ssz/ssz_container.cpp
@@ -100,9 +100,8 @@ bool Container::deserialize_(SSZIterator it, SSZIterator end, const std::vector<
             it += constants::BYTES_PER_LENGTH_OFFSET;
         }
     }
-    if (last_offset)
-        if (!last_variable_part->deserialize(begin + last_offset, end)) return false;
-    return true;
+    if (last_offset) return last_variable_part->deserialize(begin + last_offset, end);
+    return it == end;
 }
 
 std::vector<Chunk> Container::hash_tree() const {
-- 
2.43.0


From 44788c609fd0f03afb07ba00854bed70d2b75f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 07/13] fix: default bitvectors to all zeros

---
 common/bitvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 0063bb2..c8d7890 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -35,7 +35,7 @@ namespace eth {
 template <unsigned N>
 class Bitvector : public ssz::Container {
    private:
-    std::array<bool, N> m_arr;
+    std::array<bool, N> m_arr{};
 
    public:
     static constexpr std::size_t ssz_size = (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE;
-- 
2.43.0


From a185549007d7ed2333632884f721a5035b6ec48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 08/13] fix: reject encoded bitvectors with padding bits set

---
 common/bitvector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index c8d7890..e67224a 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -81,6 +81,8 @@ class Bitvector : public ssz::Container {
     }
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         if (std::distance(it, end) != (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE) return false;
+        // the bits past the last one must be zero
+        if (N % constants::BITS_PER_BYTE && *std::prev(end) >> (N % constants::BITS_PER_BYTE)) return false;
         for (auto i = it; i != end; ++i)
             for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * std::distance(it, i) + j < N;
                  ++j)
-- 
2.43.0


From d573fc4f7bcf368f4c7c120b577f05419fa35c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 09/13] fix: enforce list limits when decoding and never build
 a hash tree past its limit

---
 common/bitlist.cpp    |  2 ++
 common/containers.hpp | 16 ++++++++++++++--
 ssz/hashtree.cpp      |  1 +
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 8b3a5a9..2f3ceb3 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -57,6 +57,8 @@ bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
     --last;
     if (*last == 0) return false;
     int msb = std::countl_zero(*last);
+    const std::size_t bits = std::distance(it, end) * constants::BITS_PER_BYTE - 1 - msb;
+    if (limit_ && bits > limit_) return false;
 
     for (auto i = it; i != last; ++i)
         for (auto j = 0; j < constants::BITS_PER_BYTE; ++j) m_arr.push_back((*i >> j) & 1);
diff --git a/common/containers.hpp b/common/containers.hpp
index e044eea..cead49f 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -145,6 +145,7 @@ class ListFixedSizedParts : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         m_arr.clear();
         if (std::distance(it, end) % T::ssz_size) return false;
+        if (limit_ && std::distance(it, end) / T::ssz_size > limit_) return false;
 
         for (auto i = it; i != end; i += T::ssz_size) {
             T obj;
@@ -154,7 +155,12 @@ class ListFixedSizedParts : public ssz::Container {
         return true;
     }
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
-    bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
+    bool decode(const YAML::Node &node) override {
+        if (!YAML::convert<std::vector<T>>::decode(node, m_arr)) return false;
+        if (!limit_ || m_arr.size() <= limit_) return true;
+        m_arr.clear();
+        return false;
+    }
 };
 
 template <class T>
@@ -207,6 +213,7 @@ class ListVariableSizedParts : public ssz::Container {
         auto first_offset = helpers::to_integer_little_endian<std::uint32_t>(&*it);
         if (first_offset < constants::BYTES_PER_LENGTH_OFFSET) return false;
         if (std::distance(start, end) < first_offset) return false;
+        if (limit_ && first_offset / constants::BYTES_PER_LENGTH_OFFSET > limit_) return false;
         auto last_offset = first_offset;
         it += constants::BYTES_PER_LENGTH_OFFSET;
 
@@ -229,7 +236,12 @@ class ListVariableSizedParts : public ssz::Container {
     }
 
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
-    bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
+    bool decode(const YAML::Node &node) override {
+        if (!YAML::convert<std::vector<T>>::decode(node, m_arr)) return false;
+        if (!limit_ || m_arr.size() <= limit_) return true;
+        m_arr.clear();
+        return false;
+    }
 };
 
 struct Fork : public ssz::Container {
diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 8fa375d..8f4868a 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -111,6 +111,7 @@ HashTree::HashTree(const std::vector<Chunk>& chunks, std::uint64_t limit) {
         hash_tree_ = chunks;
     else {
         if (chunks.empty()) throw std::out_of_range("empty chunks is not allowed");
+        if (limit && chunks.size() > limit) throw std::out_of_range("more chunks than the limit allows");
         auto effective_depth = helpers::log2ceil(chunks.size());
         auto depth = (limit == 0) ? effective_depth : helpers::log2ceil(limit);
         auto cache_size = depth - effective_depth + std::bit_ceil(chunks.size()) - 1;
-- 
2.43.0


From c3bf0bf5c5546019a9d6e61a48c2bdf4f108d08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 10/13] fix: hold zero hashes for every depth a 64 bit limit
 can ask for

---
 ssz/hashtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 8f4868a..b632476 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -39,7 +39,7 @@ Chunk hash_2_chunks(const Chunk& first, const Chunk& second, const Hasher& hashe
     return ret;
 }
 // clang-format off
-const auto ZERO_HASH_DEPTH{42};
+const auto ZERO_HASH_DEPTH{64};  // one per level below the largest 64 bit limit
 constexpr Chunk zero_hash{};
 
 template <std::size_t N> requires(N > 0)
-- 
2.43.0


From bac736a9b0d20b15ef665414d5b55ca9c8ee0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 11/13] fix: pack booleans into chunks when hashing collections
 of them

---
 common/containers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/containers.hpp b/common/containers.hpp
index cead49f..319e786 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -25,6 +25,7 @@
 #include <cstdint>
 #include <iterator>
 
+#include "common/boolean.hpp"
 #include "common/slot.hpp"
 #include "ssz/hashtree.hpp"
 #include "ssz/ssz.hpp"
@@ -35,7 +36,7 @@ namespace eth
 
 {
 template <class T>
-concept BasicObject = std::unsigned_integral<T> || std::is_same_v<T, Slot>;
+concept BasicObject = std::unsigned_integral<T> || std::is_same_v<T, Slot> || std::is_same_v<T, Boolean>;
 
 template <class T, std::size_t N>
 class VectorFixedSizedParts : public ssz::Container {
-- 
2.43.0


From 781cde4ceb701722d027c74545f36a0df5eb6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 12/13] fix: compare every object by its value instead of
 always equal

---
 beacon-chain/attestation.hpp  |  8 ++++++++
 beacon-chain/beacon_block.hpp | 15 +++++++++++++++
 beacon-chain/deposits.hpp     |  6 ++++++
 beacon-chain/eth1data.hpp     |  2 ++
 beacon-chain/validator.hpp    |  2 ++
 common/containers.hpp         | 12 ++++++++++++
 6 files changed, 45 insertions(+)

diff --git a/beacon-chain/attestation.hpp b/beacon-chain/attestation.hpp
index b31950b..84e5861 100644
--- a/beacon-chain/attestation.hpp
+++ b/beacon-chain/attestation.hpp
@@ -44,6 +44,8 @@ struct AttestationData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_slashable(const AttestationData&) const;
 
+    bool operator==(const AttestationData &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -58,6 +60,8 @@ struct IndexedAttestation : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_valid(const eth::BeaconState& state) const; 
 
+    bool operator==(const IndexedAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -72,6 +76,8 @@ struct PendingAttestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
 
+    bool operator==(const PendingAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -85,6 +91,8 @@ struct Attestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     
+    bool operator==(const Attestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index bdc4d32..2cccf01 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -159,6 +159,9 @@ class BeaconBlockBody : public ssz::Container {
                              &attestations_, &deposits_, &voluntary_exits_});
     }
 
+    // defaulted below, where the types of all parts are complete
+    bool operator==(const BeaconBlockBody &) const;
+
     YAML::Node encode() const override {
         return encode_({{"randao_reveal", &randao_reveal_},
                         {"eth1_data", &eth1_data_},
@@ -212,6 +215,8 @@ class BeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&slot_, &proposer_index_, &parent_root_, &state_root_, &body_});
     }
 
+    bool operator==(const BeaconBlock &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"slot", &slot_},
                         {"proposer_index", &proposer_index_},
@@ -241,6 +246,8 @@ struct SignedBeaconBlockHeader : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlockHeader &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
@@ -259,6 +266,8 @@ struct ProposerSlashing : public ssz::Container {
         return deserialize_(it, end, {&signed_header_1, &signed_header_2});
     }
 
+    bool operator==(const ProposerSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
     }
@@ -275,6 +284,8 @@ struct AttesterSlashing : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&attestation_1, &attestation_2});
     }
+    bool operator==(const AttesterSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
     }
@@ -284,6 +295,8 @@ struct AttesterSlashing : public ssz::Container {
     }
 };
 
+inline bool BeaconBlockBody::operator==(const BeaconBlockBody &) const = default;
+
 struct SignedBeaconBlock : public ssz::Container {
     BeaconBlock message;
     BLSSignature signature;
@@ -294,6 +307,8 @@ struct SignedBeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlock &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
diff --git a/beacon-chain/deposits.hpp b/beacon-chain/deposits.hpp
index 5df397a..b68f124 100644
--- a/beacon-chain/deposits.hpp
+++ b/beacon-chain/deposits.hpp
@@ -43,6 +43,8 @@ struct DepositMessage : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount});
     }
+    bool operator==(const DepositMessage &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey}, {"withdrawal_credentials", &withdrawal_credentials}, {"amount", &amount}});
     }
@@ -71,6 +73,8 @@ struct DepositData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount, &signature});
     }
+    bool operator==(const DepositData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey},
                         {"withdrawal_credentials", &withdrawal_credentials},
@@ -98,6 +102,8 @@ struct Deposit : public ssz::Container {
         return deserialize_(it, end, {&proof, &data});
     }
 
+    bool operator==(const Deposit &) const = default;
+
     YAML::Node encode() const override { return encode_({{"proof", &proof}, {"data", &data}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"proof", &proof}, {"data", &data}}); }
diff --git a/beacon-chain/eth1data.hpp b/beacon-chain/eth1data.hpp
index 24503ae..eff7de4 100644
--- a/beacon-chain/eth1data.hpp
+++ b/beacon-chain/eth1data.hpp
@@ -38,6 +38,8 @@ struct Eth1Data : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&deposit_root, &deposit_count, &block_hash});
     }
+    bool operator==(const Eth1Data &) const = default;
+
     YAML::Node encode() const override {
         return encode_(
             {{"deposit_root", &deposit_root}, {"deposit_count", &deposit_count}, {"block_hash", &block_hash}});
diff --git a/beacon-chain/validator.hpp b/beacon-chain/validator.hpp
index 0b202f2..0267477 100644
--- a/beacon-chain/validator.hpp
+++ b/beacon-chain/validator.hpp
@@ -46,6 +46,8 @@ class Validator : public ssz::Container {
     bool is_eligible_for_activation_queue() const noexcept;
     bool is_slashable(const Epoch& epoch) const noexcept;
 
+    bool operator==(const Validator &) const = default;
+
     YAML::Node encode() const override; 
     bool decode(const YAML::Node &node) override;
 };
diff --git a/common/containers.hpp b/common/containers.hpp
index 319e786..2b97ae7 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -90,6 +90,8 @@ class VectorFixedSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const VectorFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::array<T, N>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::array<T, N>>::decode(node, m_arr); }
 };
@@ -155,6 +157,8 @@ class ListFixedSizedParts : public ssz::Container {
         }
         return true;
     }
+    bool operator==(const ListFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override {
         if (!YAML::convert<std::vector<T>>::decode(node, m_arr)) return false;
@@ -236,6 +240,8 @@ class ListVariableSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const ListVariableSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override {
         if (!YAML::convert<std::vector<T>>::decode(node, m_arr)) return false;
@@ -292,6 +298,8 @@ struct ForkData : public ssz::Container {
         return deserialize_(it, end, {&current_version, &genesis_validators_root});
     }
 
+    bool operator==(const ForkData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"current_version", &current_version}, {"genesis_validators_root", &genesis_validators_root}});
     }
@@ -314,6 +322,8 @@ struct Checkpoint : public ssz::Container {
         return deserialize_(it, end, {&epoch, &root});
     }
 
+    bool operator==(const Checkpoint &) const = default;
+
     YAML::Node encode() const override { return encode_({{"epoch", &epoch}, {"root", &root}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"epoch", &epoch}, {"root", &root}}); }
@@ -332,6 +342,8 @@ struct SigningData : public ssz::Container {
         return deserialize_(it, end, {&object_root, &domain});
     }
 
+    bool operator==(const SigningData &) const = default;
+
     YAML::Node encode() const override { return encode_({{"object_root", &object_root}, {"domain", &domain}}); }
 
     bool decode(const YAML::Node &node) override {
-- 
2.43.0


From cd45242f71602ed229daecf7f4d397231fb57fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:38 +0000
Subject: [PATCH 13/13] fix: reject bitvector text with more bits than the
 vector holds

---
 common/bitvector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index e67224a..deeb87e 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -54,6 +54,10 @@ class Bitvector : public ssz::Container {
             buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
             hex.push_back(buffer);
         }
+        // bits past the last one must not be set
+        if (hex.size() > ssz_size || (hex.size() == ssz_size && N % constants::BITS_PER_BYTE &&
+                                      hex.back() >> (N % constants::BITS_PER_BYTE)))
+            throw std::out_of_range("more bits than the vector holds");
         m_arr.fill(0);
         for (int i = 0; i < hex.size(); ++i)
             for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * i + j < N; ++j)
-- 
2.43.0

