From 155964a1bf0dc0777d26fb57b3b18fc7d4c7bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:27 +0000
Subject: [PATCH 01/50] fix: elgamalEncrypt encrypts every plaintext, not 0 in
 place of values above 1

The documented domain of the message is [0,Q), but every value other
than 1 was silently encrypted as 0.
---
 src/electionguard/elgamal.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index eb2e1c6..65dd570 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -221,10 +221,12 @@ namespace electionguard
         auto pad = g_pow_p(nonce);
         auto pubkey_pow_n = pow_mod_p(publicKey, nonce);
         unique_ptr<ElementModP> data = nullptr;
-        if (m == 1) {
+        if (m == 0) {
+            data = move(pubkey_pow_n);
+        } else if (m == 1) {
             data = mul_mod_p(G(), *pubkey_pow_n);
         } else {
-            data = move(pubkey_pow_n);
+            data = mul_mod_p(*g_pow_p(*ElementModQ::fromUint64(m)), *pubkey_pow_n);
         }
 
         Log::trace("Generated Encryption");
@@ -243,6 +245,10 @@ namespace electionguard
         if (m == 1) {
             unique_ptr<ElementModP> temp = mul_mod_p(G(), pubkey_to_rho);
             data = *temp;
+        } else if (m != 0) {
+            unique_ptr<ElementModP> temp =
+              mul_mod_p(*g_pow_p(*ElementModQ::fromUint64(m)), pubkey_to_rho);
+            data = *temp;
         }
 
         Log::trace("Generated Encryption with Precomputed Values");
-- 
2.43.0


From 7079cac43898e6dff6d8b5e51c7b93d7b4d357b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:22 +0000
Subject: [PATCH 02/50] fix: refuse compact ballots of an unknown ballot style
 instead of dereferencing null

---
 src/electionguard/encrypt.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index e6aa92a..f3a0c1d 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -233,6 +233,9 @@ namespace electionguard
                                                      const InternalManifest &manifest)
     {
         auto *style = manifest.getBallotStyle(ballot.getStyleId());
+        if (style == nullptr) {
+            throw invalid_argument("could not find a ballot style: " + ballot.getStyleId());
+        }
 
         vector<unique_ptr<PlaintextBallotContest>> contests;
         // loop through the contests for the ballot style
@@ -555,6 +558,9 @@ namespace electionguard
                     bool shouldVerifyProofs /* = true */)
     {
         auto *style = internalManifest.getBallotStyle(ballot.getStyleId());
+        if (style == nullptr) {
+            throw invalid_argument("could not find a ballot style: " + ballot.getStyleId());
+        }
         vector<unique_ptr<CiphertextBallotContest>> encryptedContests;
         auto normalizedBallot = emplaceMissingValues(ballot, internalManifest);
 
-- 
2.43.0


From 678e10e1684ce5a9dee83348dc0d476d86d675fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:39 +0000
Subject: [PATCH 03/50] fix: DisjunctiveChaumPedersenProof::clone copies the
 data of the second branch

---
 src/electionguard/chaum_pedersen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/chaum_pedersen.cpp b/src/electionguard/chaum_pedersen.cpp
index 6d665a3..61e4997 100644
--- a/src/electionguard/chaum_pedersen.cpp
+++ b/src/electionguard/chaum_pedersen.cpp
@@ -295,7 +295,7 @@ namespace electionguard
     {
         return make_unique<DisjunctiveChaumPedersenProof>(
           pimpl->proof_zero_pad->clone(), pimpl->proof_zero_data->clone(),
-          pimpl->proof_one_pad->clone(), pimpl->proof_one_pad->clone(),
+          pimpl->proof_one_pad->clone(), pimpl->proof_one_data->clone(),
           pimpl->proof_zero_challenge->clone(), pimpl->proof_one_challenge->clone(),
           pimpl->challenge->clone(), pimpl->proof_zero_response->clone(),
           pimpl->proof_one_response->clone());
-- 
2.43.0


From 686356e8798dbfad301dfdc857d10ec87d8ee936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:39 +0000
Subject: [PATCH 04/50] fix: a contest without a proof is invalid instead of
 dereferencing null

---
 src/electionguard/ballot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 234a6ec..f520820 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -740,6 +740,7 @@ namespace electionguard
         }
 
         bool valid_proof =
+          proof_exists &&
           pimpl->proof->isValid(*computedAccumulation, elgamalPublicKey, cryptoExtendedBaseHash);
 
         bool success = consistent_encryption_seed && consistent_crypto_hash && proof_exists &&
-- 
2.43.0


From 0d51e133f45caf105802fe95861ffc645a0c393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:39 +0000
Subject: [PATCH 05/50] fix: an invalid proof on a ballot is not masked by a
 later object with the same id

---
 src/electionguard/ballot.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index f520820..c208c2d 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1077,12 +1077,16 @@ namespace electionguard
         for (const auto &contest : this->getContests()) {
             for (const auto &selection : contest.get().getSelections()) {
                 string key = contest.get().getObjectId() + '-' + selection.get().getObjectId();
-                validProofs[key] = selection.get().isValidEncryption(
+                bool valid = selection.get().isValidEncryption(
                   *selection.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
+                auto &entry = validProofs.emplace(key, true).first->second;
+                entry = entry && valid;
             }
             string key = contest.get().getObjectId();
-            validProofs[key] = contest.get().isValidEncryption(
+            bool valid = contest.get().isValidEncryption(
               *contest.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
+            auto &entry = validProofs.emplace(key, true).first->second;
+            entry = entry && valid;
         }
 
         bool isValid = true;
-- 
2.43.0


From f350f1bff620378dd1e0be10e35624abc71a9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:39 +0000
Subject: [PATCH 06/50] fix: encrypted ballots without nonces, proofs or
 contest data can be copied

SubmittedBallot::make with its default arguments dereferenced a null nonce.
---
 src/electionguard/ballot.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index c208c2d..c5e1a8f 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -173,9 +173,10 @@ namespace electionguard
         {
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
             auto _ciphertext = make_unique<ElGamalCiphertext>(*ciphertext);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<DisjunctiveChaumPedersenProof>(*proof);
+            auto _proof =
+              proof != nullptr ? make_unique<DisjunctiveChaumPedersenProof>(*proof) : nullptr;
             auto _extendedData =
               extendedData != nullptr ? make_unique<ElGamalCiphertext>(*extendedData) : nullptr;
 
@@ -550,11 +551,14 @@ namespace electionguard
             }
 
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _accumulation = make_unique<ElGamalCiphertext>(*ciphertextAccumulation);
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<ConstantChaumPedersenProof>(*proof);
-            auto _hashedElGamal = make_unique<HashedElGamalCiphertext>(*hashedElGamal);
+            auto _proof =
+              proof != nullptr ? make_unique<ConstantChaumPedersenProof>(*proof) : nullptr;
+            auto _hashedElGamal = hashedElGamal != nullptr
+                                    ? make_unique<HashedElGamalCiphertext>(*hashedElGamal)
+                                    : nullptr;
 
             return make_unique<CiphertextBallotContest::Impl>(
               object_id, sequenceOrder, move(_descriptionHash), move(_selections), move(_nonce),
@@ -931,7 +935,7 @@ namespace electionguard
             auto _manifestHash = make_unique<ElementModQ>(*manifestHash);
             auto _ballotCodeSeed = make_unique<ElementModQ>(*ballotCodeSeed);
             auto _ballotCode = make_unique<ElementModQ>(*ballotCode);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
             return make_unique<CiphertextBallot::Impl>(
               object_id, styleId, move(_manifestHash), move(_ballotCodeSeed), move(_contests),
-- 
2.43.0


From e44b16a23569a3ca2263e19acd96bf02b6496520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:09 +0000
Subject: [PATCH 07/50] fix: hash the contests of a new ballot in the order in
 which they are verified

---
 src/electionguard/ballot.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index c5e1a8f..360ccc4 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1029,6 +1029,12 @@ namespace electionguard
             contestsRefs.push_back(ref(*contest));
         }
 
+        sort(contestsRefs.begin(), contestsRefs.end(),
+             [](const reference_wrapper<CiphertextBallotContest> left,
+                const reference_wrapper<CiphertextBallotContest> right) {
+                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+             });
+
         auto cryptoHash = makeCryptoHash(objectId, contestsRefs, manifestHash);
         auto ballotTimestamp = timestamp == 0 ? getSystemTimestamp() : timestamp;
         if (!ballotCodeSeed) {
-- 
2.43.0


From 827ed903fabc7377bb6204270b4048ae3e8e8643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:09 +0000
Subject: [PATCH 08/50] fix: do not truncate selection sequence orders when
 placing placeholders

---
 src/electionguard/manifest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index e26e8fc..15b0bad 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1997,7 +1997,7 @@ namespace electionguard
 
             vector<unique_ptr<SelectionDescription>> placeholders;
             placeholders.reserve(contest.get().getNumberElected());
-            uint32_t maxSequenceOrder = 0;
+            uint64_t maxSequenceOrder = 0;
             for (const auto &selection : contest.get().getSelections()) {
                 auto sequenceOrder = selection.get().getSequenceOrder();
                 if (sequenceOrder > maxSequenceOrder) {
-- 
2.43.0


From 66d636a6be041866591b898842fa6613b41f87a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:11 +0000
Subject: [PATCH 09/50] fix: sub_from_q(0) is 0, not the out-of-range value q

---
 src/electionguard/group.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 4794df2..126cf12 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -784,12 +784,7 @@ namespace electionguard
 
     unique_ptr<ElementModQ> sub_from_q(const ElementModQ &a)
     {
-        uint64_t result[MAX_Q_LEN] = {};
-        Bignum256::sub(const_cast<ElementModQ &>(Q()).get(), const_cast<ElementModQ &>(a).get(),
-                       static_cast<uint64_t *>(result));
-        // TODO: python version doesn't perform % Q on results,
-        // but we still need to handle the overflow values between (Q, MAX_256]
-        return make_unique<ElementModQ>(result, true);
+        return sub_mod_q(Q(), a);
     }
 
     unique_ptr<ElementModP> rand_p()
-- 
2.43.0


From 479591bb3791073a0966e87f9df48d7e24ef2544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:11 +0000
Subject: [PATCH 10/50] fix: add_mod_p reduces a sum of 2^4096 or more with the
 offset of p, not that of q

---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 126cf12..5546b69 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -547,7 +547,7 @@ namespace electionguard
 
             } else {
                 Bignum4096::add(static_cast<uint64_t *>(addResult),
-                                const_cast<uint64_t *>(Q_ARRAY_INVERSE_OFFSET),
+                                const_cast<uint64_t *>(P_ARRAY_INVERSE_OFFSET),
                                 static_cast<uint64_t *>(addResult));
             }
         }
-- 
2.43.0


From fe5f4b16efcbe5d27d212a7e431dea55cbd84609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:11 +0000
Subject: [PATCH 11/50] fix: mod_p does not read past the end of its operand

---
 src/electionguard/group.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 5546b69..8fe6a59 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -559,8 +559,10 @@ namespace electionguard
 
     std::unique_ptr<ElementModP> mod_p(const ElementModP &element)
     {
+        uint64_t input[MAX_P_LEN_DOUBLE] = {};
+        memcpy(static_cast<uint64_t *>(input), element.get(), MAX_P_SIZE);
         uint64_t modResult[MAX_P_LEN] = {};
-        CONTEXT_P().mod(element.get(), static_cast<uint64_t *>(modResult));
+        CONTEXT_P().mod(static_cast<uint64_t *>(input), static_cast<uint64_t *>(modResult));
         return make_unique<ElementModP>(modResult, true);
     }
 
-- 
2.43.0


From e1f95e0c940cd6a0a3acf416838d0f1902f7dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:11 +0000
Subject: [PATCH 12/50] fix: rand_p asks for as many random bytes as it reads

---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 8fe6a59..0b1df80 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -791,7 +791,7 @@ namespace electionguard
 
     unique_ptr<ElementModP> rand_p()
     {
-        auto bytes = Random::getBytes();
+        auto bytes = Random::getBytes(SHA512);
 
         auto *bigNum = Bignum4096::fromBytes(MAX_P_SIZE, const_cast<uint8_t *>(bytes.data()));
         if (bigNum == nullptr) {
-- 
2.43.0


From abea7b8596269ef7815de19a450994b0c72c6e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:11 +0000
Subject: [PATCH 13/50] fix: rand_q no longer clears five bits of every random
 element

---
 src/electionguard/group.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 0b1df80..5fcfeab 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -815,15 +815,13 @@ namespace electionguard
             throw bad_alloc();
         }
 
-        // first index of Q cannot cannod exceed 0xFFFFFFFFFFFFFF43
-        bigNum[0] = bigNum[0] & 0xFFFFFFFFFFFFFF43;
-
-        uint64_t element[MAX_Q_LEN] = {0};
+        uint64_t element[MAX_Q_LEN_DOUBLE] = {0};
         memcpy(static_cast<uint64_t *>(element), bigNum, MAX_Q_SIZE);
         free(bigNum);
 
-        auto random_q = make_unique<ElementModQ>(element, true);
-        return add_mod_q(*random_q, ZERO_MOD_Q());
+        uint64_t result[MAX_Q_LEN] = {};
+        CONTEXT_Q().mod(static_cast<uint64_t *>(element), static_cast<uint64_t *>(result));
+        return make_unique<ElementModQ>(result, true);
     }
 
     string vector_uint8_t_to_hex(const vector<uint8_t> &bytes) { return bytes_to_hex(bytes); }
-- 
2.43.0


From 350aaeee5498ebffa47da624d737d90dbdeef3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:58 +0000
Subject: [PATCH 14/50] fix: pow_mod_p uses all bits of its exponent, not the
 low 512

---
 src/electionguard/group.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 5fcfeab..12f1787 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -604,7 +604,8 @@ namespace electionguard
         }
 
         uint64_t result[MAX_P_LEN] = {};
-        CONTEXT_P().modExp(base.get(), MAX_P_SIZE, exponent.get(), static_cast<uint64_t *>(result));
+        CONTEXT_P().modExp(base.get(), MAX_P_SIZE * 8U, exponent.get(),
+                           static_cast<uint64_t *>(result));
         return make_unique<ElementModP>(result, true);
     }
 
@@ -626,7 +627,10 @@ namespace electionguard
         }
 
         // if none exists, execute the modular exponentiation directly
-        return pow_mod_p(base, *exponent.toElementModP());
+        uint64_t result[MAX_P_LEN] = {};
+        CONTEXT_P().modExp(base.get(), MAX_Q_SIZE * 8U, exponent.get(),
+                           static_cast<uint64_t *>(result));
+        return make_unique<ElementModP>(result, true);
     }
 
     unique_ptr<ElementModP> g_pow_p(const ElementModP &exponent)
-- 
2.43.0


From ccf3a4768b1d962588398342471bdd0f7d769774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:38 +0000
Subject: [PATCH 15/50] fix: refuse vectors with more limbs than an element
 holds (stack overflow)

---
 src/electionguard/group.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 12f1787..f585ac3 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -114,6 +114,9 @@ namespace electionguard
 
         Impl(const vector<uint64_t> &elem, bool unchecked, bool fixedBase)
         {
+            if (elem.size() > MAX_P_LEN) {
+                throw out_of_range("Value for ElementModP is greater than allowed");
+            }
             uint64_t array[MAX_P_LEN] = {};
             copy(elem.begin(), elem.end(), static_cast<uint64_t *>(array));
             if (!unchecked && Bignum4096::lessThan(const_cast<uint64_t *>(P().get()),
@@ -275,6 +278,9 @@ namespace electionguard
 
         Impl(const vector<uint64_t> &elem, bool unchecked)
         {
+            if (elem.size() > MAX_Q_LEN) {
+                throw out_of_range("Value for ElementModQ is greater than allowed");
+            }
             uint64_t array[MAX_Q_LEN] = {};
             copy(elem.begin(), elem.end(), static_cast<uint64_t *>(array));
             if (!unchecked && Bignum256::lessThan(const_cast<uint64_t *>(Q().get()),
-- 
2.43.0


From 239d2f93fe28c9de7df0c74f41058caf29541a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:39 +0000
Subject: [PATCH 16/50] fix: read the hexadecimal representation of zero

---
 src/electionguard/convert.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index e4a0744..7f8b531 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -170,7 +170,12 @@ namespace electionguard
     inline string sanitize_hex_string(const string &hexString)
     {
         string sanitized;
-        string leftTrimmed = hexString.substr(hexString.find_first_not_of(LEADING_CHARS));
+        auto first = hexString.find_first_not_of(LEADING_CHARS);
+        if (first == string::npos) {
+            // nothing but leading characters: the representation of zero
+            return "00";
+        }
+        string leftTrimmed = hexString.substr(first);
         bool isOdd = (leftTrimmed.size() % 2) != 0U;
         if (isOdd) {
             Log::trace("sanitize_hex_string: is odd");
-- 
2.43.0


From 832e057547febcd1e091d022ba62b1c463cbb462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:48 +0000
Subject: [PATCH 17/50] fix: take the queue lock wherever the precompute
 buffers read or change shared state

---
 src/electionguard/precompute_buffers.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/precompute_buffers.cpp b/src/electionguard/precompute_buffers.cpp
index c342092..168cc4f 100644
--- a/src/electionguard/precompute_buffers.cpp
+++ b/src/electionguard/precompute_buffers.cpp
@@ -207,6 +207,7 @@ namespace electionguard
         // queue size in we could use that.
         // for now we just go through the loop once
         int iteration_count = 0;
+        bool queue_is_full = false;
         do {
             // TODO - Can we tolerate not returning until we have finished
             // generating two triples and a quadruple?
@@ -241,18 +242,29 @@ namespace electionguard
                     getInstance().triple_queue.push(move(contest_triple2));
                 }
                 iteration_count++;
+                queue_is_full =
+                  getInstance().twoTriplesAndAQuadruple_queue.size() >= getInstance().max;
             } else {
                 return;
             }
-        } while (getInstance().twoTriplesAndAQuadruple_queue.size() < getInstance().max);
+        } while (!queue_is_full);
     }
 
-    void PrecomputeBufferContext::stop_populate() { getInstance().populate_OK = false; }
+    void PrecomputeBufferContext::stop_populate()
+    {
+        std::lock_guard<std::mutex> lock(queue_lock);
+        getInstance().populate_OK = false;
+    }
 
-    uint32_t PrecomputeBufferContext::get_max_queue_size() { return getInstance().max; }
+    uint32_t PrecomputeBufferContext::get_max_queue_size()
+    {
+        std::lock_guard<std::mutex> lock(queue_lock);
+        return getInstance().max;
+    }
 
     uint32_t PrecomputeBufferContext::get_current_queue_size()
     {
+        std::lock_guard<std::mutex> lock(queue_lock);
         return getInstance().twoTriplesAndAQuadruple_queue.size();
     }
 
-- 
2.43.0


From be9a45758bea019626d755c5291cdfee0cea8d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:57 +0000
Subject: [PATCH 18/50] fix: guard the cached hexadecimal form of an element,
 which is shared between threads

---
 src/electionguard/group.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index f585ac3..45cf1ce 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -15,6 +15,7 @@
 #include <cstdint>
 #include <iomanip>
 #include <iostream>
+#include <mutex>
 #include <random>
 #include <sstream>
 #include <stdexcept>
@@ -228,6 +229,9 @@ namespace electionguard
 
     string ElementModP::toHex() const
     {
+        // elements such as the generator and the public key are shared between threads
+        static std::mutex cache_lock;
+        std::lock_guard<std::mutex> lock(cache_lock);
         if (!pimpl->hexRepresentation.empty()) {
             return pimpl->hexRepresentation;
         }
-- 
2.43.0


From 36c18a494f4a65ce2055b003babc238e6a0ce235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:57 +0000
Subject: [PATCH 19/50] fix: hold a lock while the collection of fixed-base
 tables is searched or extended

---
 src/electionguard/lookup_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/lookup_table.hpp b/src/electionguard/lookup_table.hpp
index 00237a0..fd9aa95 100644
--- a/src/electionguard/lookup_table.hpp
+++ b/src/electionguard/lookup_table.hpp
@@ -166,14 +166,14 @@ namespace electionguard
         {
             LookupTableType *public_key_table = NULL;
             {
-                getInstance().task_lock.wait();
+                std::lock_guard<std::mutex> lock(getInstance().table_lock);
                 public_key_table = getInstance().getBaseLookupTable(key, base);
             }
             return public_key_table->pow_mod_p(exponent);
         }
 
       private:
-        AsyncSemaphore task_lock;
+        std::mutex table_lock;
         std::map<string, std::unique_ptr<LookupTableType>> key_map;
 
         LookupTableType *getBaseLookupTable(const string key, uint64_t (&base)[MAX_P_LEN])
-- 
2.43.0


From b5a0f8dd57a162440d572a1c3047219b2e78eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:22 +0000
Subject: [PATCH 20/50] fix: compare elements without copying the cached
 hexadecimal form, which another thread may be writing

---
 src/electionguard/group.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 45cf1ce..cfc84b1 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -159,9 +159,8 @@ namespace electionguard
 
         bool operator<(const Impl &other)
         {
-            auto other_ = other;
             return Bignum4096::lessThan(static_cast<uint64_t *>(data),
-                                        static_cast<uint64_t *>(other_.data)) > 0;
+                                        const_cast<uint64_t *>(other.data)) > 0;
         }
     };
 
-- 
2.43.0


From d01cff372777e7da15ca8cf7481351413bed7a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:16 +0000
Subject: [PATCH 21/50] fix: name the approval vote variation (looking it up
 dereferenced end())

---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 15b0bad..bc7d4cf 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -129,6 +129,7 @@ namespace electionguard
     const map<VoteVariationType, const string> _vote_variation_type<T>::_map = {
       {VoteVariationType::unknown, "unknown"},
       {VoteVariationType::one_of_m, "one_of_m"},
+      {VoteVariationType::approval, "approval"},
       {VoteVariationType::borda, "borda"},
       {VoteVariationType::cumulative, "cumulative"},
       {VoteVariationType::majority, "majority"},
-- 
2.43.0


From c1d87864dffc94e7bdce16f8c2302d68571fbee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:16 +0000
Subject: [PATCH 22/50] fix: list a contest once for a ballot style that names
 its district twice

---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index bc7d4cf..ef0c802 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1946,6 +1946,7 @@ namespace electionguard
             for (const auto &gpUnitId : style->getGeopoliticalUnitIds()) {
                 if (reference->getElectoralDistrictId() == gpUnitId) {
                     contests.push_back(ref(*reference));
+                    break;
                 }
             }
         }
-- 
2.43.0


From e0515d656ea2b813d6109c97479e29350d94628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:16 +0000
Subject: [PATCH 23/50] fix: assigning a contest with placeholders assigns the
 contest, not only the placeholders

---
 src/electionguard/manifest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index ef0c802..88146dc 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1393,8 +1393,7 @@ namespace electionguard
     ContestDescriptionWithPlaceholders &
     ContestDescriptionWithPlaceholders::operator=(ContestDescriptionWithPlaceholders other)
     {
-        // TODO: swap the base as well via cast?
-        //(ContestDescription) this = (ContestDescription)other;
+        ContestDescription::operator=(static_cast<const ContestDescription &>(other));
         swap(pimpl, other.pimpl);
         return *this;
     }
-- 
2.43.0


From 7b0a3563a0651459ab5db189272e09316357449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:16 +0000
Subject: [PATCH 24/50] fix: contests with a title but no subtitle, or the
 reverse, can be copied and hashed, and copies keep the votes allowed and
 primary parties

---
 src/electionguard/manifest.cpp | 35 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 88146dc..e7b2c79 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1094,17 +1094,18 @@ namespace electionguard
                 _selections.push_back(make_unique<SelectionDescription>(*element));
             }
 
-            // TODO: handle optional values
+            unique_ptr<InternationalizedText> _ballotTitle;
             if (ballotTitle != nullptr) {
-                auto _ballotTitle = make_unique<InternationalizedText>(*ballotTitle);
-                auto _ballotSubtitle = make_unique<InternationalizedText>(*ballotSubtitle);
-                return make_unique<ContestDescription::Impl>(
-                  object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
-                  votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections));
+                _ballotTitle = make_unique<InternationalizedText>(*ballotTitle);
             }
-            return make_unique<ContestDescription::Impl>(object_id, electoralDistrictId,
-                                                         sequenceOrder, voteVariation,
-                                                         numberElected, name, move(_selections));
+            unique_ptr<InternationalizedText> _ballotSubtitle;
+            if (ballotSubtitle != nullptr) {
+                _ballotSubtitle = make_unique<InternationalizedText>(*ballotSubtitle);
+            }
+            return make_unique<ContestDescription::Impl>(
+              object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
+              votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections),
+              primaryPartyIds);
         }
 
         [[nodiscard]] unique_ptr<ElementModQ> crypto_hash() const
@@ -1115,18 +1116,16 @@ namespace electionguard
                 selectionRefs.push_back(ref<CryptoHashable>(*selection));
             }
 
-            // TODO: handle optional values
+            CryptoHashableType title = nullptr;
             if (ballotTitle != nullptr) {
-                auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                        getVoteVariationTypeString(voteVariation),
-                                        ref<CryptoHashable>(*ballotTitle),
-                                        ref<CryptoHashable>(*ballotSubtitle), name, numberElected,
-                                        votesAllowed, selectionRefs});
-                Log::trace("ContestDescription", hash.get());
-                return hash;
+                title = ref<CryptoHashable>(*ballotTitle);
+            }
+            CryptoHashableType subtitle = nullptr;
+            if (ballotSubtitle != nullptr) {
+                subtitle = ref<CryptoHashable>(*ballotSubtitle);
             }
             auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                    getVoteVariationTypeString(voteVariation), nullptr, nullptr,
+                                    getVoteVariationTypeString(voteVariation), title, subtitle,
                                     name, numberElected, votesAllowed, selectionRefs});
             Log::trace("ContestDescription", hash.get());
             return hash;
-- 
2.43.0


From 0adc4389775a7cba24c94f442ccd2026d0a78448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:16 +0000
Subject: [PATCH 25/50] fix: the manifest hash covers contact information
 without a name, and a name without contact information can be hashed

---
 src/electionguard/manifest.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index e7b2c79..fde20e5 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1522,21 +1522,20 @@ namespace electionguard
                 ballotStyleRefs.push_back(ref<CryptoHashable>(*element));
             }
 
-            // TODO: handle other optional cases
-            if (name == nullptr) {
-                auto hash = hash_elems(
-                  {electionScopeId, getElectionTypeString(type), timePointToIsoString(startDate),
-                   timePointToIsoString(endDate), nullptr, nullptr, geopoliticalUnitRefs, partyRefs,
-                   contestRefs, ballotStyleRefs});
-                Log::trace("Manifest:: NO NAME!", hash->toHex());
-                return hash;
+            CryptoHashableType nameRef = nullptr;
+            if (name != nullptr) {
+                nameRef = ref<CryptoHashable>(*name);
+            }
+            CryptoHashableType contactRef = nullptr;
+            if (contactInformation != nullptr) {
+                contactRef = ref<CryptoHashable>(*contactInformation);
             }
 
             auto hash =
               hash_elems({electionScopeId, getElectionTypeString(type),
-                          timePointToIsoString(startDate), timePointToIsoString(endDate),
-                          ref<CryptoHashable>(*name), ref<CryptoHashable>(*contactInformation),
-                          geopoliticalUnitRefs, partyRefs, contestRefs, ballotStyleRefs});
+                          timePointToIsoString(startDate), timePointToIsoString(endDate), nameRef,
+                          contactRef, geopoliticalUnitRefs, partyRefs, contestRefs,
+                          ballotStyleRefs});
 
             Log::trace("Manifest", hash->toHex());
             return hash;
-- 
2.43.0


From 00ec5fe9f720d48b4ebcab1fd4bad528886954a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:46 +0000
Subject: [PATCH 26/50] fix: copying a key pair leaves the original intact

---
 src/electionguard/elgamal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index 65dd570..8b50049 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -39,7 +39,7 @@ namespace electionguard
     // Lifecycle Methods
 
     ElGamalKeyPair::ElGamalKeyPair(const ElGamalKeyPair &other)
-        : pimpl(new Impl(move(*other.pimpl)))
+        : pimpl(new Impl(other.pimpl->secretKey->clone(), other.pimpl->publicKey->clone()))
     {
     }
 
-- 
2.43.0


From 3b59d599965f30ec946f6a24086018714283c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:11 +0000
Subject: [PATCH 27/50] fix: the copy of a party without a name has no name
 either, and so the same hash

---
 src/electionguard/manifest.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index fde20e5..f30de0f 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -732,12 +732,11 @@ namespace electionguard
 
         [[nodiscard]] unique_ptr<Party::Impl> clone() const
         {
+            unique_ptr<InternationalizedText> _name;
             if (name != nullptr) {
-                auto _name = make_unique<InternationalizedText>(*name);
-                return make_unique<Party::Impl>(object_id, move(_name), abbreviation, color,
-                                                logoUri);
+                _name = make_unique<InternationalizedText>(*name);
             }
-            return make_unique<Party::Impl>(object_id, abbreviation, color, logoUri);
+            return make_unique<Party::Impl>(object_id, move(_name), abbreviation, color, logoUri);
         }
 
         [[nodiscard]] unique_ptr<ElementModQ> crypto_hash() const
-- 
2.43.0


From b681cd02145fc014d46e421716264470083e6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:51 +0000
Subject: [PATCH 28/50] fix: asking for the extended data of a contest that has
 none gives none (null dereference)

---
 src/electionguard/ballot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 360ccc4..a4a1d82 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -636,7 +636,7 @@ namespace electionguard
 
     unique_ptr<HashedElGamalCiphertext> CiphertextBallotContest::getHashedElGamalCiphertext() const
     {
-        return pimpl->hashedElGamal.get()->clone();
+        return pimpl->hashedElGamal != nullptr ? pimpl->hashedElGamal->clone() : nullptr;
     }
 
     // Interface Overrides
-- 
2.43.0


From b2456eacf8267d1e254caee3e81cd4fef245155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:10 +0000
Subject: [PATCH 29/50] fix: a compact ballot reads back with the write-ins as
 written (they gained quotes), also without selections

---
 src/electionguard/serialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 3f96141..fe0b1a3 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1018,11 +1018,11 @@ namespace electionguard
 
                 vector<string> writeins;
                 for (auto &writein_json : in_writeins) {
-                    writeins.push_back(writein_json.dump());
+                    writeins.push_back(writein_json.get<string>());
                 }
 
                 return make_unique<electionguard::CompactPlaintextBallot>(
-                  object_id, style_id, move(selections), move(writeins));
+                  object_id, style_id, move(votes), move(writeins));
             }
 
           public:
-- 
2.43.0


From 1c4fb49dc65b70fb7c452c0fed85bc1481b912f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 30/50] fix: the contest data of an encrypted ballot keeps its
 leading zero bytes when serialized

---
 src/electionguard/serialize.hpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index fe0b1a3..5e8635a 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -33,6 +33,24 @@ namespace electionguard
 {
     // TODO: input sanitization and safety
 
+    /// every byte as two hex digits; unlike a number, the bytes keep their leading zeros
+    static string bytesToJson(const vector<uint8_t> &bytes)
+    {
+        const char *digits = "0123456789ABCDEF";
+        string hex;
+        hex.reserve(bytes.size() * 2);
+        for (auto byte : bytes) {
+            hex.push_back(digits[byte >> 4]);
+            hex.push_back(digits[byte & 0xF]);
+        }
+        return hex;
+    }
+
+    static vector<uint8_t> bytesFromJson(const string &hex)
+    {
+        return hex_to_bytes(hex.size() % 2 == 0 ? hex : "0" + hex);
+    }
+
     static json annotatedStringToJson(const AnnotatedString &serializable)
     {
         return {{"annotation", serializable.getAnnotation()}, {"value", serializable.getValue()}};
@@ -1110,8 +1128,8 @@ namespace electionguard
                     auto e = contest.get().getHashedElGamalCiphertext();
                     json extended_data = {
                       {"pad", e->getPad()->toHex()},
-                      {"data", bytes_to_hex(e->getData())},
-                      {"mac", bytes_to_hex(e->getMac())},
+                      {"data", bytesToJson(e->getData())},
+                      {"mac", bytesToJson(e->getMac())},
                     };
                     json contest_props = {
                       {"object_id", contest.get().getObjectId()},
@@ -1180,14 +1198,11 @@ namespace electionguard
                     auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
                     auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
 
-                    auto hashed_el_gamal_data_sanitized = sanitize_hex_string(hashed_el_gamal_data);
-                    auto hashed_el_gamal_mac_sanitized = sanitize_hex_string(hashed_el_gamal_mac);
-
                     auto deserializedHashedElGamal =
                       make_unique<electionguard::HashedElGamalCiphertext>(
                         ElementModP::fromHex(hashed_el_gamal_pad),
-                        hex_to_bytes(hashed_el_gamal_data_sanitized),
-                        hex_to_bytes(hashed_el_gamal_mac_sanitized));
+                        bytesFromJson(hashed_el_gamal_data),
+                        bytesFromJson(hashed_el_gamal_mac));
 
                     auto proof = contest["proof"];
                     auto contest_proof_pad = proof["pad"].get<string>();
-- 
2.43.0


From ba34badb62ab53858baa55de44e561bbc662b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 31/50] fix: contact information without a name, or without
 anything, can be read back

---
 src/electionguard/serialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 5e8635a..dd9749e 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -97,7 +97,7 @@ namespace electionguard
 
     static json contactInformationToJson(const ContactInformation &serializable)
     {
-        json serialized = {};
+        json serialized = json::object();
 
         if (!serializable.getName().empty()) {
             serialized["name"] = serializable.getName();
@@ -156,7 +156,7 @@ namespace electionguard
             return make_unique<ContactInformation>(move(addressLine), move(email), move(phone),
                                                    j["name"].get<string>());
         }
-        return make_unique<ContactInformation>(move(addressLine), move(email), move(phone));
+        return make_unique<ContactInformation>(move(addressLine), move(email), move(phone), "");
     }
 
     static json geopoliticalUnitToJson(const GeopoliticalUnit &serializable)
-- 
2.43.0


From 4b4d8b9670dd9ffad0f2420a4f05931535ed3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 32/50] fix: a manifest with a name or contact information
 only, not both, reads back with what it has

---
 src/electionguard/serialize.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index dd9749e..9104355 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -568,22 +568,21 @@ namespace electionguard
                 auto contests = contestDescriptionsFromJson(j["contests"]);
                 auto ballotStyles = ballotStylesFromJson(j["ballot_styles"]);
 
-                // TODO: just a stub for now.
-                // we need to handle all of the otpional serilization cases.
+                // the name and the contact information are each optional
+                unique_ptr<InternationalizedText> name;
                 if (j.contains("name") && !j["name"].is_null()) {
-                    auto name = internationalizedTextFromJson(j["name"]);
-                    auto contactInformation = contactInformationFromJson(j["contact_information"]);
-
-                    return make_unique<electionguard::Manifest>(
-                      electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
-                      timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                      move(candidates), move(contests), move(ballotStyles), move(name),
-                      move(contactInformation));
+                    name = internationalizedTextFromJson(j["name"]);
                 }
+                unique_ptr<ContactInformation> contactInformation;
+                if (j.contains("contact_information") && !j["contact_information"].is_null()) {
+                    contactInformation = contactInformationFromJson(j["contact_information"]);
+                }
+
                 return make_unique<electionguard::Manifest>(
                   electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
                   timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                  move(candidates), move(contests), move(ballotStyles));
+                  move(candidates), move(contests), move(ballotStyles), move(name),
+                  move(contactInformation));
             }
 
           public:
-- 
2.43.0


From 8a600fff1b4de3b39a8023eef47ac4cd17fffca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 33/50] fix: a party or candidate without a name reads back
 without one, and so with the same hash

---
 src/electionguard/serialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 9104355..4e80518 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -246,7 +246,7 @@ namespace electionguard
         }
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j["name"])
-                      : internationalizedTextFromJson(json("{}"));
+                      : nullptr;
 
         return make_unique<Party>(j["object_id"].get<string>(), move(name), abbreviation, color,
                                   logo_uri);
@@ -300,7 +300,7 @@ namespace electionguard
         auto objectId = j["object_id"].get<string>();
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j["name"])
-                      : internationalizedTextFromJson("{}");
+                      : nullptr;
         bool isWriteIn = j.contains("is_write_in") && !j["is_write_in"].is_null()
                            ? j["is_write_in"].get<bool>()
                            : false;
-- 
2.43.0


From 5ec8efc9a640b56e975c76704c5e0cdcd370f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 34/50] fix: an internal manifest reads back with the titles
 and votes allowed of its contests

---
 src/electionguard/serialize.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 4e80518..451c569 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -627,7 +627,7 @@ namespace electionguard
                 auto candidates = candidatesToJson(serializable.getCandidates());
 
                 // Contests
-                json contests;
+                json contests = json::array();
                 for (const auto &contest : serializable.getContests()) {
                     auto selections = selectionDescriptionsToJson(contest.get().getSelections());
                     auto placeholders =
@@ -646,14 +646,13 @@ namespace electionguard
                       {"ballot_placeholders", placeholders}};
 
                     if (contest.get().getBallotTitle() != nullptr) {
-                        contest_json["ballot_title"] = {
-                          {"text", internationalizedTextToJson(*contest.get().getBallotTitle())}};
+                        contest_json["ballot_title"] =
+                          internationalizedTextToJson(*contest.get().getBallotTitle());
                     }
 
                     if (contest.get().getBallotSubtitle() != nullptr) {
-                        contest_json["ballot_subtitle"] = {
-                          {"text",
-                           internationalizedTextToJson(*contest.get().getBallotSubtitle())}};
+                        contest_json["ballot_subtitle"] =
+                          internationalizedTextToJson(*contest.get().getBallotSubtitle());
                     }
 
                     contests.push_back(contest_json);
@@ -693,14 +692,19 @@ namespace electionguard
                     auto placeholders =
                       selectionDescriptionsFromJson(contest["ballot_placeholders"]);
 
-                    // TODO: ust a stub for now.
-                    // we need to handle all of the otpional serilization cases.
+                    // the ballot title and subtitle are each optional
+                    unique_ptr<InternationalizedText> ballotTitle;
                     if (contest.contains("ballot_title") && !contest["ballot_title"].is_null()) {
-                        auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
-                        auto ballotTitle = internationalizedTextFromJson(contest["ballot_title"]);
-                        auto ballotSubtitle =
-                          internationalizedTextFromJson(contest["ballot_subtitle"]);
+                        ballotTitle = internationalizedTextFromJson(contest["ballot_title"]);
+                    }
+                    unique_ptr<InternationalizedText> ballotSubtitle;
+                    if (contest.contains("ballot_subtitle") &&
+                        !contest["ballot_subtitle"].is_null()) {
+                        ballotSubtitle = internationalizedTextFromJson(contest["ballot_subtitle"]);
+                    }
 
+                    if (contest.contains("votes_allowed") && !contest["votes_allowed"].is_null()) {
+                        auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
                         contestDescriptions.push_back(
                           make_unique<ContestDescriptionWithPlaceholders>(
                             contest_object_id, electoral_district_id, contest_sequence_order,
-- 
2.43.0


From e72546ea0c16a8a3f813e6aa8f21afc0670bf855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 35/50] fix: a contest that allows no votes reads back as such,
 not with the number elected

---
 src/electionguard/serialize.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 451c569..232c173 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -440,9 +440,7 @@ namespace electionguard
         serialized["vote_variation"] = getVoteVariationTypeString(serializable.getVoteVariation());
         serialized["number_elected"] = serializable.getNumberElected();
 
-        if (serializable.getVotesAllowed() > 0) {
-            serialized["votes_allowed"] = serializable.getVotesAllowed();
-        }
+        serialized["votes_allowed"] = serializable.getVotesAllowed();
 
         serialized["name"] = serializable.getName();
 
-- 
2.43.0


From d7d14fd97beb238c7b1c37489b64c78e9614b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:50 +0000
Subject: [PATCH 36/50] fix: a submitted ballot carries no nonces, as
 documented (it kept those of the encrypted ballot)

---
 src/electionguard/ballot.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index a4a1d82..e63a502 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1175,9 +1175,24 @@ namespace electionguard
 
     // Lifecycle Methods
 
+    static void removeNonce(ElementModQ *nonce)
+    {
+        if (nonce != nullptr) {
+            *nonce = ZERO_MOD_Q();
+        }
+    }
+
     SubmittedBallot::SubmittedBallot(const CiphertextBallot &other, BallotBoxState state)
         : CiphertextBallot(other), pimpl(new Impl(state))
     {
+        // a submitted ballot does not carry the nonces of the ballot it is made from
+        removeNonce(getNonce());
+        for (const auto &contest : getContests()) {
+            removeNonce(contest.get().getNonce());
+            for (const auto &selection : contest.get().getSelections()) {
+                removeNonce(selection.get().getNonce());
+            }
+        }
     }
 
     SubmittedBallot::SubmittedBallot(const string &objectId, const string &styleId,
-- 
2.43.0


From c8b2e9ead20b416ca895bdef1acfbde402235ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:50 +0000
Subject: [PATCH 37/50] fix: writing a ballot with nonces when it has none does
 not dereference null

---
 src/electionguard/serialize.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 232c173..4012b8e 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1108,7 +1108,7 @@ namespace electionguard
                           {"crypto_hash", selection.get().getCryptoHash()->toHex()},
                           {"proof", selection_proof}};
 
-                        if (withNonces) {
+                        if (withNonces && selection.get().getNonce() != nullptr) {
                             selection_props["nonce"] = selection.get().getNonce()->toHex();
                         }
                         selections.push_back(selection_props);
@@ -1142,7 +1142,7 @@ namespace electionguard
                       {"proof", contest_proof},
                       {"extended_data", extended_data},
                     };
-                    if (withNonces) {
+                    if (withNonces && contest.get().getNonce() != nullptr) {
                         contest_props["nonce"] = contest.get().getNonce()->toHex();
                     }
 
@@ -1158,7 +1158,7 @@ namespace electionguard
                   {"timestamp", serializable.getTimestamp()},
                   {"crypto_hash", serializable.getCryptoHash()->toHex()},
                 };
-                if (withNonces) {
+                if (withNonces && serializable.getNonce() != nullptr) {
                     result["nonce"] = serializable.getNonce()->toHex();
                 }
                 return result;
-- 
2.43.0


From 323660ec62092827a4d1b91d8a7746d5c7f5acc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:44 +0000
Subject: [PATCH 38/50] fix: derive every value of a compact ballot from its
 nonce

A compact ballot is expanded by encrypting its votes anew from the nonce it
holds.  When precomputed values were at hand, encryptCompactBallot and
expandCompactCiphertextBallot used those instead, so the ballot code of the
expanded ballot never matched and the ballot could not be expanded.
---
 include/electionguard/encrypt.hpp    | 14 ++++++++++----
 src/electionguard/ballot_compact.cpp |  3 ++-
 src/electionguard/encrypt.cpp        | 29 ++++++++++++++++++----------
 3 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/include/electionguard/encrypt.hpp b/include/electionguard/encrypt.hpp
index ee072f4..d0dc22b 100644
--- a/include/electionguard/encrypt.hpp
+++ b/include/electionguard/encrypt.hpp
@@ -123,13 +123,15 @@ namespace electionguard
     ///                          Contest nonce, but no relationship is required</param>
     /// <param name="isPlaceholder">specifies if this is a placeholder selection</param>
     /// <param name="shouldVerifyProofs">specify if the proofs should be verified prior to returning (default True)</param>
+    /// <param name="usePrecomputedValues">specify if precomputed values may be used in place of the values derived from the nonce (default True)</param>
     /// <returns>A `CiphertextBallotSelection`</returns>
     /// </summary>
     EG_API std::unique_ptr<CiphertextBallotSelection>
     encryptSelection(const PlaintextBallotSelection &selection,
                      const SelectionDescription &description, const ElementModP &elgamalPublicKey,
                      const ElementModQ &cryptoExtendedBaseHash, const ElementModQ &nonceSeed,
-                     bool isPlaceholder = false, bool shouldVerifyProofs = true);
+                     bool isPlaceholder = false, bool shouldVerifyProofs = true,
+                     bool usePrecomputedValues = true);
 
     /// <summary>
     /// Gets overvote and write in information from the selections in a contest
@@ -163,13 +165,15 @@ namespace electionguard
     ///                          for this contest. this value can be (or derived from) the
     ///                          Ballot nonce, but no relationship is required</param>
     /// <param name="shouldVerifyProofs">specify if the proofs should be verified prior to returning (default True)</param>
+    /// <param name="usePrecomputedValues">specify if precomputed values may be used in place of the values derived from the nonce (default True)</param>
     /// <returns>A `CiphertextBallotContest`</returns>
     /// </summary>
     EG_API std::unique_ptr<CiphertextBallotContest>
     encryptContest(const PlaintextBallotContest &contest, const InternalManifest &internalManifest,
                    const ContestDescriptionWithPlaceholders &description,
                    const ElementModP &elgamalPublicKey, const ElementModQ &cryptoExtendedBaseHash,
-                   const ElementModQ &nonceSeed, bool shouldVerifyProofs = true);
+                   const ElementModQ &nonceSeed, bool shouldVerifyProofs = true,
+                   bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt the contests of a specific `Ballot` in the context of a specific `CiphertextElectionContext`
@@ -187,12 +191,13 @@ namespace electionguard
     /// <param name="context">all the cryptographic context for the election</param>
     /// <param name="nonceSeed">the random value used to seed the `Nonce` for all contests on the ballot</param>
     /// <param name="shouldVerifyProofs">specify if the proofs should be verified prior to returning (default True)</param>
+    /// <param name="usePrecomputedValues">specify if precomputed values may be used in place of the values derived from the nonce (default True)</param>
     /// <returns>A collection of `CiphertextBallotContest`</returns>
     /// </summary>
     EG_API std::vector<std::unique_ptr<CiphertextBallotContest>>
     encryptContests(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                     const CiphertextElectionContext &context, const ElementModQ &nonceSeed,
-                    bool shouldVerifyProofs = true);
+                    bool shouldVerifyProofs = true, bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt a specific `Ballot` in the context of a specific `CiphertextElectionContext`
@@ -212,13 +217,14 @@ namespace electionguard
     /// <param name="nonce">an optional value used to seed the `Nonce` generated for this ballot
     ///                     if this value is not provided, the secret generating mechanism of the OS provides its own</param>
     /// <param name="shouldVerifyProofs">specify if the proofs should be verified prior to returning (default True)</param>
+    /// <param name="usePrecomputedValues">specify if precomputed values may be used in place of the values derived from the nonce (default True)</param>
     /// <returns>A `CiphertextBallot`</returns>
     /// </summary>
     EG_API std::unique_ptr<CiphertextBallot>
     encryptBallot(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                   const CiphertextElectionContext &context, const ElementModQ &ballotCodeSeed,
                   std::unique_ptr<ElementModQ> nonce = nullptr, uint64_t timestamp = 0,
-                  bool shouldVerifyProofs = true);
+                  bool shouldVerifyProofs = true, bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt a specific `Ballot` in the context of a specific `CiphertextElectionContext`
diff --git a/src/electionguard/ballot_compact.cpp b/src/electionguard/ballot_compact.cpp
index 44c6a5c..ec81d58 100644
--- a/src/electionguard/ballot_compact.cpp
+++ b/src/electionguard/ballot_compact.cpp
@@ -327,7 +327,8 @@ namespace electionguard
         auto plaintext = expandCompactPlaintextBallot(*compactCiphertext.getPlaintext(), manifest);
         auto ciphertext =
           encryptBallot(*plaintext, manifest, context, *compactCiphertext.getBallotCodeSeed(),
-                        compactCiphertext.getNonce()->clone(), compactCiphertext.getTimestamp());
+                        compactCiphertext.getNonce()->clone(), compactCiphertext.getTimestamp(), true,
+                        false);
 
         if (*ciphertext->getBallotCode() != *compactCiphertext.getBallotCode()) {
             throw runtime_error("The regenerated ballot code does not match");
diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index f3a0c1d..a4fb0f4 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -264,7 +264,8 @@ namespace electionguard
     encryptSelection(const PlaintextBallotSelection &selection,
                      const SelectionDescription &description, const ElementModP &elgamalPublicKey,
                      const ElementModQ &cryptoExtendedBaseHash, const ElementModQ &nonceSeed,
-                     bool isPlaceholder /* = false */, bool shouldVerifyProofs /* = true */)
+                     bool isPlaceholder /* = false */, bool shouldVerifyProofs /* = true */,
+                     bool usePrecomputedValues /* = true */)
     {
         unique_ptr<CiphertextBallotSelection> encrypted = NULL;
         unique_ptr<ElGamalCiphertext> ciphertext;
@@ -287,7 +288,9 @@ namespace electionguard
 
         // this method runs off to look in the precomputed values buffer and if
         // it finds what it needs then the returned class will contain those values
-        precomputedTwoTriplesAndAQuad = PrecomputeBufferContext::getTwoTriplesAndAQuadruple();
+        if (usePrecomputedValues) {
+            precomputedTwoTriplesAndAQuad = PrecomputeBufferContext::getTwoTriplesAndAQuadruple();
+        }
 
         // check if we found the precomputed values needed
         if (precomputedTwoTriplesAndAQuad != nullptr) {
@@ -411,7 +414,8 @@ namespace electionguard
     encryptContest(const PlaintextBallotContest &contest, const InternalManifest &internalManifest,
                    const ContestDescriptionWithPlaceholders &description,
                    const ElementModP &elgamalPublicKey, const ElementModQ &cryptoExtendedBaseHash,
-                   const ElementModQ &nonceSeed, bool shouldVerifyProofs /* = true */)
+                   const ElementModQ &nonceSeed, bool shouldVerifyProofs /* = true */,
+                   bool usePrecomputedValues /* = true */)
 
     {
         // Validate Input
@@ -477,7 +481,8 @@ namespace electionguard
 
                 encryptedSelections.push_back(encryptSelection(
                   *selection_ptr, selectionDescription.get(), *elgamalPublicKey_ptr,
-                  *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), false, shouldVerifyProofs));
+                  *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), false, shouldVerifyProofs,
+                  usePrecomputedValues));
             } else {
                 // Should never happen since the contest is normalized by emplaceMissingValues
                 throw runtime_error("encryptedContest:: Error constructing encrypted selection");
@@ -505,7 +510,8 @@ namespace electionguard
             auto placeholderSelection = selectionFrom(placeholder, true, selectPlaceholder);
             encryptedSelections.push_back(encryptSelection(
               *placeholderSelection, placeholder, *elgamalPublicKey_ptr,
-              *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), true, shouldVerifyProofs));
+              *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), true, shouldVerifyProofs,
+              usePrecomputedValues));
         }
 
         // Derive the extendedDataNonce from the selection nonce and a constant
@@ -555,7 +561,8 @@ namespace electionguard
     vector<unique_ptr<CiphertextBallotContest>>
     encryptContests(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                     const CiphertextElectionContext &context, const ElementModQ &nonceSeed,
-                    bool shouldVerifyProofs /* = true */)
+                    bool shouldVerifyProofs /* = true */,
+                    bool usePrecomputedValues /* = true */)
     {
         auto *style = internalManifest.getBallotStyle(ballot.getStyleId());
         if (style == nullptr) {
@@ -573,7 +580,7 @@ namespace electionguard
                     auto encrypted = encryptContest(
                       contest.get(), internalManifest, description.get(),
                       *context.getElGamalPublicKey(), *context.getCryptoExtendedBaseHash(),
-                      nonceSeed, shouldVerifyProofs);
+                      nonceSeed, shouldVerifyProofs, usePrecomputedValues);
 
                     encryptedContests.push_back(move(encrypted));
                     break;
@@ -592,7 +599,7 @@ namespace electionguard
     encryptBallot(const PlaintextBallot &ballot, const InternalManifest &manifest,
                   const CiphertextElectionContext &context, const ElementModQ &encryptionSeed,
                   unique_ptr<ElementModQ> nonce /* = nullptr */, uint64_t timestamp /* = 0 */,
-                  bool shouldVerifyProofs /* = true */)
+                  bool shouldVerifyProofs /* = true */, bool usePrecomputedValues /* = true */)
     {
         Log::trace("encryptBallot:: encrypting");
         auto *style = manifest.getBallotStyle(ballot.getStyleId());
@@ -618,7 +625,7 @@ namespace electionguard
 
         // encrypt contests
         auto encryptedContests =
-          encryptContests(ballot, manifest, context, *nonceSeed, shouldVerifyProofs);
+          encryptContests(ballot, manifest, context, *nonceSeed, shouldVerifyProofs, usePrecomputedValues);
 
         // Get the system time
         if (timestamp == 0) {
@@ -659,8 +666,10 @@ namespace electionguard
                          uint64_t timestamp /* = 0 */, bool shouldVerifyProofs /* = true*/)
     {
         auto normalized = emplaceMissingValues(ballot, manifest);
+        // a compact ballot is encrypted anew from its nonce when it is expanded,
+        // so all of its values have to be derived from the nonce
         auto ciphertext = encryptBallot(*normalized, manifest, context, ballotCodeSeed,
-                                        move(nonceSeed), timestamp, shouldVerifyProofs);
+                                        move(nonceSeed), timestamp, shouldVerifyProofs, false);
         return CompactCiphertextBallot::make(*normalized, *ciphertext);
     }
 
-- 
2.43.0


From 88aba02d36bd3a877d2794613e1b9183cd596bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:10 +0000
Subject: [PATCH 39/50] fix: the C API says a contest is valid when it is, and
 not when it is not (the answer was inverted)

---
 src/electionguard/facades/ballot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 58a8e32..00c9625 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -427,8 +427,8 @@ bool eg_plaintext_ballot_contest_is_valid(eg_plaintext_ballot_contest_t *handle,
 {
     try {
         return AS_TYPE(PlaintextBallotContest, handle)
-          ->isValid(string(in_expected_object_id), in_expected_num_selections,
-                    in_expected_num_elected, in_votes_allowed);
+                 ->isValid(string(in_expected_object_id), in_expected_num_selections,
+                           in_expected_num_elected, in_votes_allowed) == electionguard::SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_plaintext_ballot_contest_is_valid", e);
         return false;
-- 
2.43.0


From 6d571a4b2a7b2970bea868a5ea9080f1dc92dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:10 +0000
Subject: [PATCH 40/50] fix: an election context made from hex with extended
 data keeps the extended data

---
 src/electionguard/facades/election.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/facades/election.cpp b/src/electionguard/facades/election.cpp
index e2aa39e..3d9ba9a 100644
--- a/src/electionguard/facades/election.cpp
+++ b/src/electionguard/facades/election.cpp
@@ -328,7 +328,8 @@ eg_electionguard_status_t eg_ciphertext_election_context_make_from_hex_with_exte
         }
 
         auto context = CiphertextElectionContext::make(
-          in_number_of_guardians, in_quorum, elGamalPublicKey, commitmentHash, manifestHash);
+          in_number_of_guardians, in_quorum, elGamalPublicKey, commitmentHash, manifestHash,
+          move(extendedData));
         *out_handle = AS_TYPE(eg_ciphertext_election_context_t, context.release());
 
         return ELECTIONGUARD_STATUS_SUCCESS;
-- 
2.43.0


From 620b4f649d2f372425fc6c781579890e96241a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:10 +0000
Subject: [PATCH 41/50] fix: the C API reads the name of contact information
 from contact information, not as if it were a geopolitical unit

---
 src/electionguard/facades/manifest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 5d9ecc0..36acb03 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -396,7 +396,7 @@ eg_electionguard_status_t eg_contact_information_get_name(eg_contact_information
                                                           const char **out_name)
 {
     try {
-        auto result = AS_TYPE(GeopoliticalUnit, handle)->getName();
+        auto result = AS_TYPE(ContactInformation, handle)->getName();
         *out_name = dynamicCopy(result);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
-- 
2.43.0


From 196618ca1dd0c3049d1dd6a420525837a7c78777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:10 +0000
Subject: [PATCH 42/50] fix: the C API returns the dates of a manifest in
 milliseconds, as they are given

---
 src/electionguard/facades/manifest.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 36acb03..4a80fd3 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -1795,9 +1795,9 @@ eg_election_type_t eg_election_manifest_get_type(eg_election_manifest_t *handle)
 uint64_t eg_election_manifest_get_start_date(eg_election_manifest_t *handle)
 {
     try {
-        return AS_TYPE(Manifest, handle)->getStartDate().time_since_epoch().count() *
-               system_clock::period::num / system_clock::period::den;
-        return ELECTIONGUARD_STATUS_SUCCESS;
+        return std::chrono::duration_cast<std::chrono::milliseconds>(
+                 AS_TYPE(Manifest, handle)->getStartDate().time_since_epoch())
+          .count();
     } catch (const exception &e) {
         Log::error(":eg_election_manifest_get_election_scope_id", e);
         return 0;
@@ -1807,9 +1807,9 @@ uint64_t eg_election_manifest_get_start_date(eg_election_manifest_t *handle)
 uint64_t eg_election_manifest_get_end_date(eg_election_manifest_t *handle)
 {
     try {
-        return AS_TYPE(Manifest, handle)->getEndDate().time_since_epoch().count() *
-               system_clock::period::num / system_clock::period::den;
-        return ELECTIONGUARD_STATUS_SUCCESS;
+        return std::chrono::duration_cast<std::chrono::milliseconds>(
+                 AS_TYPE(Manifest, handle)->getEndDate().time_since_epoch())
+          .count();
     } catch (const exception &e) {
         Log::error(":eg_election_manifest_get_election_scope_id", e);
         return 0;
-- 
2.43.0


From d5b090d3fc1e4cdbbb08ed82ab70763e80747394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:10 +0000
Subject: [PATCH 43/50] fix: encrypting a ballot with a nonce through the C API
 leaves the caller its nonce (it was freed twice)

---
 src/electionguard/facades/encrypt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/encrypt.cpp b/src/electionguard/facades/encrypt.cpp
index a42fb42..42c944a 100644
--- a/src/electionguard/facades/encrypt.cpp
+++ b/src/electionguard/facades/encrypt.cpp
@@ -350,7 +350,7 @@ eg_electionguard_status_t eg_encrypt_ballot_with_nonce(
         auto *context = AS_TYPE(CiphertextElectionContext, in_context);
         auto *code_seed = AS_TYPE(ElementModQ, in_ballot_code_seed);
         auto *nonce = AS_TYPE(ElementModQ, in_nonce);
-        unique_ptr<ElementModQ> nonce_ptr{nonce};
+        auto nonce_ptr = make_unique<ElementModQ>(*nonce);
 
         auto ciphertext = encryptBallot(*plaintext, *manifest, *context, *code_seed,
                                         move(nonce_ptr), 0, in_should_verify_proofs);
@@ -413,7 +413,7 @@ eg_electionguard_status_t eg_encrypt_compact_ballot_with_nonce(
         auto *context = AS_TYPE(CiphertextElectionContext, in_context);
         auto *code_seed = AS_TYPE(ElementModQ, in_ballot_code_seed);
         auto *nonce = AS_TYPE(ElementModQ, in_nonce);
-        unique_ptr<ElementModQ> nonce_ptr{nonce};
+        auto nonce_ptr = make_unique<ElementModQ>(*nonce);
 
         auto ciphertext = encryptCompactBallot(*plaintext, *manifest, *context, *code_seed,
                                                move(nonce_ptr), 0, in_should_verify_proofs);
-- 
2.43.0


From 108df31552ec1c685007a1b5359884b65483c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:08 +0000
Subject: [PATCH 44/50] fix: functions of the C API are declared as they are
 defined (those declared otherwise were missing from the library)

---
 include/electionguard/ballot.h       |  8 ++++----
 include/electionguard/manifest.h     |  9 ++++++---
 src/electionguard/facades/ballot.cpp | 15 ++++++++-------
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/electionguard/ballot.h b/include/electionguard/ballot.h
index 99fae7c..76aa66d 100644
--- a/include/electionguard/ballot.h
+++ b/include/electionguard/ballot.h
@@ -431,7 +431,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_crypto_hash(
  *                           The value is a reference and is not owned by the caller
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
-  eg_ciphertext_ballot_contest_t *handle, eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref);
+  eg_ciphertext_ballot_contest_t *handle, eg_constant_chaum_pedersen_proof_t **out_proof_ref);
 
 /**
  * Given an encrypted Ballotcontest, generates a hash, suitable for rolling up
@@ -446,7 +446,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
  *                             The caller is responsible for lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t *in_encryption_seed,
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t *in_encryption_seed,
   eg_element_mod_q_t **out_crypto_hash);
 
 // TODO: eg_ciphertext_ballot_contest_make
@@ -461,7 +461,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
  *                           The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
 
 /**
  * Add the individual ballot_selections `message` fields together, suitable for use
@@ -471,7 +471,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
  *                                         The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_elgamal_accumulate(
-  eg_ciphertext_ballot_selection_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
+  eg_ciphertext_ballot_contest_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
 
 /**
  * Given an encrypted BallotContest, validates the encryption state against a specific seed hash and public key
diff --git a/include/electionguard/manifest.h b/include/electionguard/manifest.h
index a600e62..76a4c3d 100644
--- a/include/electionguard/manifest.h
+++ b/include/electionguard/manifest.h
@@ -595,7 +595,8 @@ EG_API eg_electionguard_status_t eg_contest_description_new_with_parties(
 
 EG_API eg_electionguard_status_t eg_contest_description_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
@@ -694,7 +695,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new(
 
 EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_title(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   eg_selection_description_t *in_placeholder_selections[], uint64_t in_placeholder_selections_size,
@@ -711,7 +713,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_wi
 EG_API eg_electionguard_status_t
 eg_contest_description_with_placeholders_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 00c9625..6ba6311 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -555,12 +555,12 @@ eg_ciphertext_ballot_contest_get_crypto_hash(eg_ciphertext_ballot_contest_t *han
 }
 
 eg_electionguard_status_t
-eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_selection_t *handle,
-                                       eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref)
+eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_contest_t *handle,
+                                       eg_constant_chaum_pedersen_proof_t **out_proof_ref)
 {
     try {
         auto *reference = AS_TYPE(CiphertextBallotContest, handle)->getProof();
-        *out_proof_ref = AS_TYPE(eg_disjunctive_chaum_pedersen_proof_t, reference);
+        *out_proof_ref = AS_TYPE(eg_constant_chaum_pedersen_proof_t, reference);
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_ciphertext_ballot_contest_get_proof", e);
@@ -929,14 +929,15 @@ eg_ciphertext_ballot_get_ballot_code(eg_ciphertext_ballot_t *handle,
     }
 }
 
-uint64_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *ciphertext)
+eg_electionguard_status_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *handle,
+                                                             uint64_t *out_timestamp)
 {
     try {
-        auto result = AS_TYPE(CiphertextBallot, ciphertext)->getTimestamp();
-        return result;
+        *out_timestamp = AS_TYPE(CiphertextBallot, handle)->getTimestamp();
+        return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error(":eg_ciphertext_ballot_get_timestamp", e);
-        return 0;
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
     }
 }
 
-- 
2.43.0


From 6fe148994af44875785fe8eea69663cb16c4ed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:08 +0000
Subject: [PATCH 45/50] fix: write-ins can be given and read through the C API
 (the functions were not declared)

---
 include/electionguard/ballot.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/electionguard/ballot.h b/include/electionguard/ballot.h
index 76aa66d..efdfa4a 100644
--- a/include/electionguard/ballot.h
+++ b/include/electionguard/ballot.h
@@ -85,6 +85,10 @@ EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new(
   const char *in_object_id, const uint64_t in_vote, bool in_is_placeholder_selection,
   eg_plaintext_ballot_selection_t **out_handle);
 
+EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new_with_write_in(
+  const char *in_object_id, const uint64_t in_vote, bool in_is_placeholder_selection,
+  const char *in_write_in, eg_plaintext_ballot_selection_t **out_handle);
+
 EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new_with_extended_data(
   const char *in_object_id, const uint64_t in_vote, bool in_is_placeholder_selection,
   const char *in_extended_data_value, uint64_t in_extended_data_length,
@@ -116,6 +120,15 @@ EG_API uint64_t eg_plaintext_ballot_selection_get_vote(eg_plaintext_ballot_selec
 EG_API bool
 eg_plaintext_ballot_selection_get_is_placeholder(eg_plaintext_ballot_selection_t *handle);
 
+/**
+ * the text of a write-in candidate, empty if there is none
+ *
+ * @param[in] handle A pointer to the `eg_plaintext_ballot_selection_t` opaque instance
+ * @param[out] out_write_in A copy of the text.  The caller is responsible for freeing it.
+ */
+EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_get_write_in(
+  eg_plaintext_ballot_selection_t *handle, char **out_write_in);
+
 /**
  * an optional field of arbitrary data, such as the value of a write-in candidate
  * 
-- 
2.43.0


From db20ef6e611b3b9bb66c8a84338ba10ef8a54171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:46 +0000
Subject: [PATCH 46/50] fix: the whole value of an element is wiped when it is
 destroyed (an eighth of it was)

---
 src/electionguard/group.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index cfc84b1..b83b6d2 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -138,7 +138,7 @@ namespace electionguard
             copy(begin(elem), end(elem), begin(data));
         };
 
-        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_P_LEN); };
+        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_P_SIZE); };
 
         [[nodiscard]] unique_ptr<ElementModP::Impl> clone() const
         {
@@ -302,7 +302,7 @@ namespace electionguard
             copy(begin(elem), end(elem), begin(data));
         };
 
-        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_Q_LEN); };
+        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_Q_SIZE); };
 
         [[nodiscard]] unique_ptr<ElementModQ::Impl> clone() const
         {
-- 
2.43.0


From b6f09c4ab3277aa5fc71bcef38ab793510e3d746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:46 +0000
Subject: [PATCH 47/50] fix: get_hmac wipes its copy of the key

---
 src/electionguard/hmac.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/hmac.cpp b/src/electionguard/hmac.cpp
index a16f231..67c0950 100644
--- a/src/electionguard/hmac.cpp
+++ b/src/electionguard/hmac.cpp
@@ -35,10 +35,11 @@ namespace electionguard
             data_to_hmac = message;
         }
 
-        // calculate the hmac and then zeroize the buffer holding the data we hmaced
+        // calculate the hmac and then zeroize the buffers holding the data we hmaced and our copy of the key
         Hacl_HMAC_compute_sha2_256(&hmac.front(), &key.front(), key.size(), &data_to_hmac.front(),
                                    data_to_hmac.size());
         Lib_Memzero0_memzero(&data_to_hmac.front(), data_to_hmac.size());
+        Lib_Memzero0_memzero(&key.front(), key.size());
 
         return hmac;
     }
-- 
2.43.0


From 807ebbd74defb4c9de7e52348f0ffbe6bc0772e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:58 +0000
Subject: [PATCH 48/50] fix: hash_close wipes the buffer the digest passes
 through

---
 src/electionguard/hash.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/electionguard/hash.cpp b/src/electionguard/hash.cpp
index 8ef4930..11d9984 100644
--- a/src/electionguard/hash.cpp
+++ b/src/electionguard/hash.cpp
@@ -1,5 +1,6 @@
 #include "electionguard/hash.hpp"
 
+#include "../karamel/Lib_Memzero0.h"
 #include "../karamel/Hacl_Bignum256.h"
 #include "../karamel/Hacl_Streaming_SHA2.h"
 #include "log.hpp"
@@ -105,6 +106,7 @@ namespace electionguard
         uint64_t normalized[MAX_Q_LEN] = {};
         memcpy(static_cast<uint64_t *>(normalized), bigNum, sizeof(output));
         Hacl_Streaming_SHA2_free_256(p);
+        Lib_Memzero0_memzero(bigNum, sizeof(output));
         free(bigNum);
 
         auto element = make_unique<ElementModQ>(normalized, true);
-- 
2.43.0


From 6c6dcaf83dbf98f2251bb375cef22de1d43368a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:25 +0000
Subject: [PATCH 49/50] fix: the votes of a contest are counted without
 overflow (2^63 twice made none)

---
 src/electionguard/ballot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index e63a502..3c3c5d9 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -481,9 +481,11 @@ namespace electionguard
 
         uint64_t numberElected = 0;
         uint64_t votes = 0;
+        bool votesOverflow = false; // the total exceeds 64 bits
 
         for (const auto &selection : pimpl->selections) {
             votes += selection->getVote();
+            votesOverflow = votesOverflow || votes < selection->getVote();
             if (selection->getVote() >= 1) {
                 numberElected += 1;
             }
@@ -502,7 +504,7 @@ namespace electionguard
             votesAllowd = expectedNumberElected;
         }
 
-        if (votes > votesAllowd) {
+        if (votesOverflow || votes > votesAllowd) {
             Log::info(": too many votes");
             if (supportOvervotes) {
                 return OVERVOTE;
-- 
2.43.0


From 7398464658b35d375936e8cfbe76e8c5f3f64490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:39 +0000
Subject: [PATCH 50/50] fix: a manifest that lacks a required field is refused
 (the process was ended by an assertion, or read past the end)

---
 src/electionguard/serialize.hpp | 47 +++++++++++++++++----------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 4012b8e..89dd653 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -58,8 +58,8 @@ namespace electionguard
 
     static unique_ptr<AnnotatedString> annotatedStringFromJson(const json &j)
     {
-        auto value = j["value"].get<string>();
-        auto annotation = j["annotation"].get<string>();
+        auto value = j.at("value").get<string>();
+        auto annotation = j.at("annotation").get<string>();
         return make_unique<AnnotatedString>(annotation, value);
     }
 
@@ -70,8 +70,8 @@ namespace electionguard
 
     static unique_ptr<Language> languageFromJson(const json &j)
     {
-        auto value = j["value"].get<string>();
-        auto language = j["language"].get<string>();
+        auto value = j.at("value").get<string>();
+        auto language = j.at("language").get<string>();
         return make_unique<Language>(value, language);
     }
 
@@ -154,7 +154,7 @@ namespace electionguard
 
         if (j.contains("name") && !j["name"].is_null()) {
             return make_unique<ContactInformation>(move(addressLine), move(email), move(phone),
-                                                   j["name"].get<string>());
+                                                   j.at("name").get<string>());
         }
         return make_unique<ContactInformation>(move(addressLine), move(email), move(phone), "");
     }
@@ -178,12 +178,13 @@ namespace electionguard
     {
         if (j.contains("contact_information") && !j["contact_information"].is_null()) {
             return make_unique<GeopoliticalUnit>(
-              j["object_id"].get<string>(), j["name"].get<string>(),
-              getReportingUnitType(j["type"].get<string>()),
+              j.at("object_id").get<string>(), j.at("name").get<string>(),
+              getReportingUnitType(j.at("type").get<string>()),
               contactInformationFromJson(j["contact_information"]));
         }
-        return make_unique<GeopoliticalUnit>(j["object_id"].get<string>(), j["name"].get<string>(),
-                                             getReportingUnitType(j["type"].get<string>()));
+        return make_unique<GeopoliticalUnit>(j.at("object_id").get<string>(),
+                                             j.at("name").get<string>(),
+                                             getReportingUnitType(j.at("type").get<string>()));
     }
 
     static json
@@ -248,7 +249,7 @@ namespace electionguard
                       ? internationalizedTextFromJson(j["name"])
                       : nullptr;
 
-        return make_unique<Party>(j["object_id"].get<string>(), move(name), abbreviation, color,
+        return make_unique<Party>(j.at("object_id").get<string>(), move(name), abbreviation, color,
                                   logo_uri);
     }
 
@@ -297,7 +298,7 @@ namespace electionguard
 
     static unique_ptr<Candidate> candidateFromJson(const json &j)
     {
-        auto objectId = j["object_id"].get<string>();
+        auto objectId = j.at("object_id").get<string>();
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j["name"])
                       : nullptr;
@@ -361,7 +362,7 @@ namespace electionguard
     static unique_ptr<BallotStyle> ballotStyleFromJson(const json &j)
     {
         vector<string> gpUnitIds;
-        for (const auto &element : j["geopolitical_unit_ids"]) {
+        for (const auto &element : j.at("geopolitical_unit_ids")) {
             gpUnitIds.push_back(element);
         }
 
@@ -374,7 +375,7 @@ namespace electionguard
 
         auto imageUri =
           j.contains("image_uri") && !j["image_uri"].is_null() ? j["image_uri"].get<string>() : "";
-        return make_unique<BallotStyle>(j["object_id"].get<string>(), gpUnitIds, partyIds,
+        return make_unique<BallotStyle>(j.at("object_id").get<string>(), gpUnitIds, partyIds,
                                         imageUri);
     }
 
@@ -407,9 +408,9 @@ namespace electionguard
 
     static unique_ptr<SelectionDescription> selectionDescriptionFromJson(const json &j)
     {
-        return make_unique<SelectionDescription>(j["object_id"].get<string>(),
-                                                 j["candidate_id"].get<string>(),
-                                                 j["sequence_order"].get<uint64_t>());
+        return make_unique<SelectionDescription>(j.at("object_id").get<string>(),
+                                                 j.at("candidate_id").get<string>(),
+                                                 j.at("sequence_order").get<uint64_t>());
     }
 
     static json
@@ -461,18 +462,18 @@ namespace electionguard
 
     static unique_ptr<ContestDescription> contestDescriptionFromJson(const json &j)
     {
-        auto objectId = j["object_id"].get<string>();
-        auto electoralDistrictId = j["electoral_district_id"].get<string>();
-        auto sequenceOrder = j["sequence_order"].get<uint64_t>();
-        auto variation = getVoteVariationType(j["vote_variation"].get<string>());
-        auto elected = j["number_elected"].get<uint64_t>();
+        auto objectId = j.at("object_id").get<string>();
+        auto electoralDistrictId = j.at("electoral_district_id").get<string>();
+        auto sequenceOrder = j.at("sequence_order").get<uint64_t>();
+        auto variation = getVoteVariationType(j.at("vote_variation").get<string>());
+        auto elected = j.at("number_elected").get<uint64_t>();
         auto allowed =
           j.contains("votes_allowed") && !j["votes_allowed"].is_null()
             ? j["votes_allowed"].get<uint64_t>()
           : variation == VoteVariationType::n_of_m || variation == VoteVariationType::one_of_m
             ? elected
             : 0;
-        auto name = j["name"].get<string>();
+        auto name = j.at("name").get<string>();
         auto title = j.contains("ballot_title") && !j["ballot_title"].is_null()
                        ? internationalizedTextFromJson(j["ballot_title"])
                        : nullptr;
@@ -480,7 +481,7 @@ namespace electionguard
                           ? internationalizedTextFromJson(j["ballot_subtitle"])
                           : nullptr;
 
-        auto selections = selectionDescriptionsFromJson(j["ballot_selections"]);
+        auto selections = selectionDescriptionsFromJson(j.at("ballot_selections"));
 
         return make_unique<ContestDescription>(
           objectId, electoralDistrictId, sequenceOrder, variation, elected, allowed, name,
-- 
2.43.0

