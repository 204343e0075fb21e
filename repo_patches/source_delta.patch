From 2077a14c078fa119c63cf9647ec129100ed5bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:26 +0000
Subject: [PATCH] fix: lyra2 no longer panics for output sizes above one sponge
 block

squeeze() copied k bytes out of the accumulated stream after every block,
so any k > 96 sliced past the end of the first 96-byte block and panicked.
Copy once, after all blocks have been squeezed.
---
 src/lyra2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lyra2.rs b/src/lyra2.rs
index c70339f..b2f3fd4 100644
--- a/src/lyra2.rs
+++ b/src/lyra2.rs
@@ -154,10 +154,10 @@ fn squeeze(mut state: [u64; 16], output_size: u64) -> Vec<u8> {
         for _i in 0..BLOCKLENINT64 {
             tmp.extend_from_slice(&state[_i as usize].to_le_bytes());
         }
-        //be care in case of len(out[i:])<len(tmp)
-        out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
         state = blake2b_lyra(state);
     }
+    //be care in case of len(out[i:])<len(tmp)
+    out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);
     out
 }
 
-- 
2.43.0

