From cb5eb6c0f48ee64456c7b260073400b49e1750ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 1/8] fix: TimTm2Flags::time_base panicked on every time base
 but Receiver

The two-bit field at bits 3..4 was matched without shifting it down, so a
GNSS or UTC time base ran into unreachable!(). The unassigned value 3 gets a
variant of its own.
---
 ublox/src/ubx_packets/packets.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index e203d33..fead7f3 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2887,11 +2887,11 @@ impl TimTm2Flags {
     }
 
     pub fn time_base(&self) -> TimTm2TimeBase {
-        match self.0 & 0b11000 {
+        match (self.0 & 0b11000) >> 3 {
             0 => TimTm2TimeBase::Receiver,
             1 => TimTm2TimeBase::Gnss,
             2 => TimTm2TimeBase::Utc,
-            _ => unreachable!(),
+            _ => TimTm2TimeBase::Reserved,
         }
     }
 
@@ -2919,6 +2919,8 @@ pub enum TimTm2TimeBase {
     Receiver,
     Gnss,
     Utc,
+    /// Bit pattern not assigned by the protocol
+    Reserved,
 }
 
 #[ubx_packet_recv]
-- 
2.43.0


From 4c2f4a032b4e0201c2e33bca92041bf403b360b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 2/8] fix: builders with signed scaled fields panicked on NaN

FloatCore::to_i8/i16/i32 return None for NaN only, as the range is checked
before; encode 0, as a float to integer cast does.
---
 ublox/src/ubx_packets/packets.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index fead7f3..e11c299 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2400,7 +2400,7 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
         } else if x > T::from_i8(i8::max_value()).unwrap() {
             i8::max_value()
         } else {
-            x.to_i8().unwrap()
+            x.to_i8().unwrap_or(0)
         }
     }
 
@@ -2411,7 +2411,7 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
         } else if x > T::from_i16(i16::max_value()).unwrap() {
             i16::max_value()
         } else {
-            x.to_i16().unwrap()
+            x.to_i16().unwrap_or(0)
         }
     }
 
@@ -2422,7 +2422,7 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
         } else if x > T::from_i32(i32::MAX).unwrap() {
             i32::MAX
         } else {
-            x.to_i32().unwrap()
+            x.to_i32().unwrap_or(0)
         }
     }
 
-- 
2.43.0


From 8249be92d8c740573d18ce3ff0ba54c0e0f1d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 3/8] fix: extend_to corrupted the output it was asked to
 extend

The length and the checksum were computed relative to the beginning of the
output, so extending a non-empty buffer overwrote bytes 4 and 5 of what was
already there and produced a frame with length 0 and a wrong checksum.
---
 ublox_derive/src/output.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ublox_derive/src/output.rs b/ublox_derive/src/output.rs
index 7e1ba73..740a619 100644
--- a/ublox_derive/src/output.rs
+++ b/ublox_derive/src/output.rs
@@ -471,6 +471,7 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
               {
                   // TODO: Enable when `extend_one` feature is stable.
                   // out.extend_reserve(6);
+                  let start = out.len();
                   let mut len_bytes = 0;
                   let header = [SYNC_CHAR_1, SYNC_CHAR_2, #main_name::CLASS, #main_name::ID, 0, 0];
                   // TODO: Extend all at once when we bump MSRV
@@ -481,10 +482,10 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                   #(#extend_fields);*;
 
                   let len_bytes = len_bytes.to_le_bytes();
-                  out[4] = len_bytes[0];
-                  out[5] = len_bytes[1];
+                  out[start + 4] = len_bytes[0];
+                  out[start + 5] = len_bytes[1];
 
-                  let (ck_a, ck_b) = ubx_checksum(&out[2..]);
+                  let (ck_a, ck_b) = ubx_checksum(&out[start + 2..]);
                   out.extend(core::iter::once(ck_a));
                   out.extend(core::iter::once(ck_b));
               }
-- 
2.43.0


From c1e4c9966e7706f0996f4ab5440bbcf4d6a604d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 4/8] fix: CfgItfm configuration words did not survive decoding
 and encoding

The fields of the word were decoded without extracting their bits, so that
writing a decoded word back moved bits 0..4 of the word into the CW threshold
and bits 0..21 into the algorithm bits, and the antenna setting was encoded
into the general bits instead of bits 12..13.
---
 ublox/src/ubx_packets/packets.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index e11c299..14953dc 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -888,8 +888,8 @@ impl CfgItfmConfig {
     pub fn new(enable: bool, bb_threshold: u32, cw_threshold: u32) -> Self {
         Self {
             enable,
-            bb_threshold: bb_threshold.into(),
-            cw_threshold: cw_threshold.into(),
+            bb_threshold: CfgItfmBbThreshold(bb_threshold),
+            cw_threshold: CfgItfmCwThreshold(cw_threshold),
             algorithm_bits: CfgItfmAlgoBits::default(),
         }
     }
@@ -937,8 +937,8 @@ impl Default for CfgItfmBbThreshold {
 }
 
 impl From<u32> for CfgItfmBbThreshold {
-    fn from(thres: u32) -> Self {
-        Self(thres)
+    fn from(cfg: u32) -> Self {
+        Self((cfg >> Self::POSITION) & Self::MASK)
     }
 }
 
@@ -962,8 +962,8 @@ impl Default for CfgItfmCwThreshold {
 }
 
 impl From<u32> for CfgItfmCwThreshold {
-    fn from(thres: u32) -> Self {
-        Self(thres)
+    fn from(cfg: u32) -> Self {
+        Self((cfg >> Self::POSITION) & Self::MASK)
     }
 }
 
@@ -987,8 +987,8 @@ impl Default for CfgItfmAlgoBits {
 }
 
 impl From<u32> for CfgItfmAlgoBits {
-    fn from(thres: u32) -> Self {
-        Self(thres)
+    fn from(cfg: u32) -> Self {
+        Self((cfg >> Self::POSITION) & Self::MASK)
     }
 }
 
@@ -1017,7 +1017,7 @@ impl CfgItfmConfig2 {
     const fn into_raw(self) -> u32 {
         ((self.scan_aux_bands as u32) << 14)
             | self.general.into_raw()
-            | self.antenna.into_raw() as u32
+            | (self.antenna.into_raw() as u32) << 12
     }
 }
 
@@ -1054,8 +1054,8 @@ impl Default for CfgItfmGeneralBits {
 }
 
 impl From<u32> for CfgItfmGeneralBits {
-    fn from(thres: u32) -> Self {
-        Self(thres)
+    fn from(cfg: u32) -> Self {
+        Self((cfg >> Self::POSITION) & Self::MASK)
     }
 }
 
-- 
2.43.0


From 0f794845ef47b01650df01f2139f83f451c4ba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 5/8] fix: Position from NavHpPosLlh added millimeters to
 meters

---
 ublox/src/ubx_packets/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index 4b93b7d..e3f792d 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -56,7 +56,7 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
         Position {
             lon: packet.lon_degrees() + packet.lon_hp_degrees(),
             lat: packet.lat_degrees() + packet.lat_hp_degrees(),
-            alt: packet.height_msl() + packet.height_hp_msl(),
+            alt: packet.height_msl() + packet.height_hp_msl() * 1e-3, // the high precision part is in mm
         }
     }
 }
-- 
2.43.0


From 991259705bb08209b4460200b21d44793af2344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 6/8] fix: PositionECEF was ten times too large

The coordinates are in centimeters and the factor to meters is 1e-2.
---
 ublox/src/ubx_packets/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index e3f792d..79d89c0 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -64,9 +64,9 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
 impl<'a> From<&NavHpPosEcefRef<'a>> for PositionECEF {
     fn from(packet: &NavHpPosEcefRef<'a>) -> Self {
         PositionECEF {
-            x: 10e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
-            y: 10e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
-            z: 10e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
+            x: 1e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
+            y: 1e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
+            z: 1e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
         }
     }
 }
-- 
2.43.0


From 9d8b5b4f4811a9f8899bcfbb89b975fb5bbe6390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:32 +0000
Subject: [PATCH 7/8] fix: the ECEF Z velocity of NavVelECEF is signed

UBX-NAV-VELECEF carries I4 velocities in all three axes; a negative Z
velocity was returned as a value above 2^31.
---
 ublox/src/ubx_packets/packets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 14953dc..1d9c318 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -3519,7 +3519,7 @@ struct NavVelECEF {
     itow: u32,
     ecef_vx: i32,
     ecef_vy: i32,
-    ecef_vz: u32,
+    ecef_vz: i32,
     s_acc: u32,
 }
 
-- 
2.43.0


From 51223440e01d8721579ca9c720eb9f88ce79a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:40 +0000
Subject: [PATCH 8/8] fix: AID-INI time stores the month and the day of month

---
 ublox/src/ubx_packets/packets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 1d9c318..7b0c780 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1260,8 +1260,9 @@ impl AidIniBuilder {
                 panic!("AID-INI packet only supports years after 2000");
             },
         } * 100
-            + tm.month0()) as u16;
-        self.tow_or_hms = tm.hour() * 10000 + tm.minute() * 100 + tm.second();
+            + tm.month()) as u16;
+        self.tow_or_hms =
+            tm.day() * 1_000_000 + tm.hour() * 10_000 + tm.minute() * 100 + tm.second();
         self.tow_ns = tm.nanosecond() as i32;
         self.flags |= (1 << 1) | (1 << 10);
         self
-- 
2.43.0

