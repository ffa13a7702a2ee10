From 94badacccb2961aed93c90bfb0db836d9f4a48a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:19 +0000
Subject: [PATCH 1/2] fix: multisig2: let member access keys call
 add_request_and_confirm

The keys the contract adds for its members were limited to a method
"add_and_confirm_request" that the contract does not have.
---
 multisig2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index 052bfab..fbc73b0 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -20,7 +20,7 @@ const REQUEST_COOLDOWN: u64 = 900_000_000_000;
 const ACTIVE_REQUESTS_LIMIT: u32 = 12;
 
 /// Default set of methods that access key should have.
-const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_and_confirm_request";
+const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_request_and_confirm";
 
 pub type RequestId = u32;
 
-- 
2.43.0


From a72e5db16f921efc7d70f39ffb6f59e355257a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 2/2] fix: lockup: reject malformed vesting schedules

VestingSchedule::assert_valid was never called, so a schedule whose cliff
is before its start locked more than the lockup amount, and one of zero
length divided by zero.
---
 lockup/src/internal.rs | 1 +
 lockup/src/lib.rs      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lockup/src/internal.rs b/lockup/src/internal.rs
index 9180241..4054611 100644
--- a/lockup/src/internal.rs
+++ b/lockup/src/internal.rs
@@ -42,6 +42,7 @@ impl LockupContract {
                         &hash.0,
                         "Presented vesting schedule and salt don't match the hash"
                     );
+                    vesting_schedule_with_salt.vesting_schedule.assert_valid();
                     vesting_schedule_with_salt.vesting_schedule
                 } else {
                     env::panic(b"Expected vesting schedule and salt, but it was not provided")
diff --git a/lockup/src/lib.rs b/lockup/src/lib.rs
index 22db413..92c3357 100644
--- a/lockup/src/lib.rs
+++ b/lockup/src/lib.rs
@@ -223,6 +223,7 @@ impl LockupContract {
             }
             Some(VestingScheduleOrHash::VestingHash(hash)) => VestingInformation::VestingHash(hash),
             Some(VestingScheduleOrHash::VestingSchedule(vs)) => {
+                vs.assert_valid();
                 VestingInformation::VestingSchedule(vs)
             }
         };
-- 
2.43.0

