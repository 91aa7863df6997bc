From 3907d9408bc61be22dcf3c104b3c66e864a62010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 1/5] fix: multisig2 member keys may call
 add_request_and_confirm

The access keys added for key members allowed the method name
add_and_confirm_request, which does not exist, so a member holding a key
could not call add_request_and_confirm with it.
---
 multisig2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index 052bfab..fbc73b0 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -20,7 +20,7 @@ const REQUEST_COOLDOWN: u64 = 900_000_000_000;
 const ACTIVE_REQUESTS_LIMIT: u32 = 12;
 
 /// Default set of methods that access key should have.
-const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_and_confirm_request";
+const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_request_and_confirm";
 
 pub type RequestId = u32;
 
-- 
2.43.0


From fe2da0927d3f00a7112930d91f94d4c1cc095012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:40 +0000
Subject: [PATCH 2/5] fix: lockup checks an explicit vesting schedule at
 initialization

A schedule whose dates are out of order was accepted although the
computation of the unvested amount relies on its validity.
---
 lockup/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lockup/src/lib.rs b/lockup/src/lib.rs
index 22db413..92c3357 100644
--- a/lockup/src/lib.rs
+++ b/lockup/src/lib.rs
@@ -223,6 +223,7 @@ impl LockupContract {
             }
             Some(VestingScheduleOrHash::VestingHash(hash)) => VestingInformation::VestingHash(hash),
             Some(VestingScheduleOrHash::VestingSchedule(vs)) => {
+                vs.assert_valid();
                 VestingInformation::VestingSchedule(vs)
             }
         };
-- 
2.43.0


From 21837b8e9067bfcf35cc6c6fad2872b08ca68724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:40 +0000
Subject: [PATCH 3/5] fix: multisig-factory returns the deposit if the creation
 fails

When the new account could not be created or initialized, the attached
deposit was refunded to the factory and stayed there.
---
 multisig-factory/src/lib.rs | 38 +++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/multisig-factory/src/lib.rs b/multisig-factory/src/lib.rs
index 9fe444f..e0db2f4 100644
--- a/multisig-factory/src/lib.rs
+++ b/multisig-factory/src/lib.rs
@@ -1,8 +1,8 @@
 use near_sdk::borsh::{self, BorshDeserialize, BorshSerialize};
-use near_sdk::json_types::Base58PublicKey;
+use near_sdk::json_types::{Base58PublicKey, U128};
 use near_sdk::serde::{Deserialize, Serialize};
 use near_sdk::serde_json::json;
-use near_sdk::{env, near_bindgen, AccountId, Promise};
+use near_sdk::{env, ext_contract, near_bindgen, AccountId, Promise, PromiseResult};
 
 #[global_allocator]
 static ALLOC: near_sdk::wee_alloc::WeeAlloc<'_> = near_sdk::wee_alloc::WeeAlloc::INIT;
@@ -12,6 +12,15 @@ const CODE: &[u8] = include_bytes!("../../multisig2/res/multisig2.wasm");
 /// This gas spent on the call & account creation, the rest goes to the `new` call.
 const CREATE_CALL_GAS: u64 = 50_000_000_000_000;
 
+/// The part of `CREATE_CALL_GAS` that is kept for the callback after the creation.
+const CALLBACK_GAS: u64 = 10_000_000_000_000;
+
+/// External interface for the callbacks to self.
+#[ext_contract(ext_self)]
+pub trait ExtSelf {
+    fn on_create(&mut self, attached_deposit: U128, predecessor_account_id: AccountId) -> bool;
+}
+
 #[derive(Serialize, Deserialize)]
 #[serde(crate = "near_sdk::serde", untagged)]
 pub enum MultisigMember {
@@ -46,5 +55,30 @@ impl MultisigFactory {
                 0,
                 env::prepaid_gas() - CREATE_CALL_GAS,
             )
+            .then(ext_self::on_create(
+                env::attached_deposit().into(),
+                env::predecessor_account_id(),
+                &env::current_account_id(),
+                0,
+                CALLBACK_GAS,
+            ))
+    }
+
+    /// Callback after the creation. If it failed, the deposit came back to this account and is
+    /// returned to whoever attached it.
+    pub fn on_create(&mut self, attached_deposit: U128, predecessor_account_id: AccountId) -> bool {
+        assert_eq!(
+            env::predecessor_account_id(),
+            env::current_account_id(),
+            "Callback can only be called from the contract"
+        );
+        assert_eq!(env::promise_results_count(), 1, "Contract expected a result on the callback");
+        match env::promise_result(0) {
+            PromiseResult::Successful(_) => true,
+            _ => {
+                Promise::new(predecessor_account_id).transfer(attached_deposit.0);
+                false
+            }
+        }
     }
 }
-- 
2.43.0


From 7d40d380c0bb1442868c3ba0b5e9c0daae05f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 4/5] fix: staking-pool get_accounts accepts any page size

from_index + limit overflowed, and the call failed, when the caller asked for
everything from an index on with a huge limit.
---
 staking-pool/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staking-pool/src/lib.rs b/staking-pool/src/lib.rs
index 4c6ab0b..ebf124c 100644
--- a/staking-pool/src/lib.rs
+++ b/staking-pool/src/lib.rs
@@ -387,7 +387,7 @@ impl StakingContract {
     pub fn get_accounts(&self, from_index: u64, limit: u64) -> Vec<HumanReadableAccount> {
         let keys = self.accounts.keys_as_vector();
 
-        (from_index..std::cmp::min(from_index + limit, keys.len()))
+        (from_index..std::cmp::min(from_index.saturating_add(limit), keys.len()))
             .map(|index| self.get_account(keys.get(index).unwrap()))
             .collect()
     }
-- 
2.43.0


From 888f537f91ef10b1a1278342b42e20619cb51c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:25 +0000
Subject: [PATCH 5/5] fix: multisig2 refuses duplicate members at
 initialisation

With an entry repeated in the members list the check of the threshold against
the number of entries passed although fewer members exist, so that no request
could ever reach the threshold.
---
 multisig2/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index fbc73b0..092722b 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -159,10 +159,15 @@ impl MultiSigContract {
             num_requests_pk: LookupMap::new(StorageKeys::NumRequestsPk),
             active_requests_limit: ACTIVE_REQUESTS_LIMIT,
         };
+        let num_members = members.len() as u64;
         let mut promise = Promise::new(env::current_account_id());
         for member in members {
             promise = multisig.add_member(promise, member);
         }
+        assert(
+            multisig.members.len() == num_members,
+            "Members list must not contain duplicates",
+        );
         multisig
     }
 
-- 
2.43.0

