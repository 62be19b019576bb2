From 87c365b7e61aa4d1e44e08d29b5b65698023f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 01/80] fix: PPU::Yearly is written 01Y, the text its parser
 accepts

---
 src/production/ppu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/production/ppu.rs b/src/production/ppu.rs
index 2017d3a..591d2ea 100644
--- a/src/production/ppu.rs
+++ b/src/production/ppu.rs
@@ -56,7 +56,7 @@ impl std::fmt::Display for PPU {
             Self::QuarterHour => write!(f, "15M"),
             Self::Hourly => write!(f, "01H"),
             Self::Daily => write!(f, "01D"),
-            Self::Yearly => write!(f, "O1Y"),
+            Self::Yearly => write!(f, "01Y"),
             Self::Unspecified => write!(f, "00U"),
         }
     }
-- 
2.43.0


From 1a2fd4f9d8086aa39745c4c839bce39135afa4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 02/80] fix: write and parse every marker type, and read the
 whole monument of a marker number

---
 src/marker.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/marker.rs b/src/marker.rs
index a0ad313..1ca2010 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -61,7 +61,7 @@ pub enum MarkerType {
 impl std::str::FromStr for MarkerType {
     type Err = ParsingError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match s.to_lowercase().as_str() {
+        match s.trim().to_lowercase().replace('_', " ").as_str() {
             "geodetic" => Ok(Self::Geodetic),
             "non geodetic" => Ok(Self::NonGeodetic),
             "ground craft" => Ok(Self::Groundcraft),
@@ -70,6 +70,7 @@ impl std::str::FromStr for MarkerType {
             "non physical" => Ok(Self::NonPhysical),
             "spaceborne" => Ok(Self::Spaceborne),
             "floating ice" => Ok(Self::FloatingIce),
+            "fixed buoy" => Ok(Self::FixedBuoy),
             "floating buoy" => Ok(Self::FloatingBuoy),
             "glacier" => Ok(Self::Glacier),
             "ballistic" => Ok(Self::Ballistic),
@@ -84,7 +85,19 @@ impl std::fmt::Display for MarkerType {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         match self {
             Self::Geodetic => write!(f, "GEODETIC"),
-            _ => write!(f, "HUMAN"),
+            Self::NonGeodetic => write!(f, "NON_GEODETIC"),
+            Self::NonPhysical => write!(f, "NON_PHYSICAL"),
+            Self::Spaceborne => write!(f, "SPACEBORNE"),
+            Self::Airborne => write!(f, "AIRBORNE"),
+            Self::Watercraft => write!(f, "WATER_CRAFT"),
+            Self::Groundcraft => write!(f, "GROUND_CRAFT"),
+            Self::FixedBuoy => write!(f, "FIXED_BUOY"),
+            Self::FloatingBuoy => write!(f, "FLOATING_BUOY"),
+            Self::FloatingIce => write!(f, "FLOATING_ICE"),
+            Self::Glacier => write!(f, "GLACIER"),
+            Self::Ballistic => write!(f, "BALLISTIC"),
+            Self::Animal => write!(f, "ANIMAL"),
+            Self::Human => write!(f, "HUMAN"),
         }
     }
 }
@@ -119,7 +132,7 @@ impl GeodeticMarker {
         let mut s = self.clone();
         if content.len() == 9 && content.chars().nth(5) == Some('M') {
             if let Ok(id) = u32::from_str_radix(&content[..5], 10) {
-                if let Ok(monument) = u16::from_str_radix(&content[7..], 10) {
+                if let Ok(monument) = u16::from_str_radix(&content[6..], 10) {
                     s.identification = Some(id);
                     s.monument = Some(monument);
                 }
-- 
2.43.0


From 1d5024a33358d273a7883ec13ed1640876614a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 03/80] fix: ionex ObsSystem and Model text forms no longer
 recurse without end

---
 src/ionex/system.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ionex/system.rs b/src/ionex/system.rs
index 3c1f8e6..37e880d 100644
--- a/src/ionex/system.rs
+++ b/src/ionex/system.rs
@@ -54,7 +54,12 @@ impl std::str::FromStr for ObsSystem {
 
 impl std::fmt::Display for ObsSystem {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        f.write_str(&self.to_string())
+        match self {
+            Self::BENt => f.write_str("BEN"),
+            Self::ENVisat => f.write_str("ENV"),
+            Self::ERS => f.write_str("ERS"),
+            Self::IRI => f.write_str("IRI"),
+        }
     }
 }
 
@@ -87,7 +92,11 @@ impl std::str::FromStr for Model {
 
 impl std::fmt::Display for Model {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        f.write_str(&self.to_string())
+        match self {
+            Self::MIX => f.write_str("MIX"),
+            Self::NNS => f.write_str("NNS"),
+            Self::TOP => f.write_str("TOP"),
+        }
     }
 }
 
-- 
2.43.0


From 8c7eeb6a9e52657eea7ce3a78375cc8d1539c6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 04/80] fix: mapping functions are written with the text RINEX
 uses and the parser accepts

---
 src/ionex/mapf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ionex/mapf.rs b/src/ionex/mapf.rs
index ea4133c..a5bbd8e 100644
--- a/src/ionex/mapf.rs
+++ b/src/ionex/mapf.rs
@@ -27,8 +27,8 @@ impl std::str::FromStr for MappingFunction {
 impl std::fmt::Display for MappingFunction {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         match self {
-            Self::CosZ => write!(f, "Cos(z)"),
-            Self::QFac => write!(f, "Q-factor"),
+            Self::CosZ => write!(f, "COSZ"),
+            Self::QFac => write!(f, "QFAC"),
         }
     }
 }
-- 
2.43.0


From c066a2394e5f8b88316f45648940c6e2a7cee665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 05/80] fix: parse the text forms of the observation and meteo
 file types

---
 src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 3022f9c..4fb83f9 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -77,9 +77,9 @@ impl std::str::FromStr for Type {
         let s = s.to_lowercase();
         if s.eq("navigation data") || s.contains("nav data") {
             Ok(Self::NavigationData)
-        } else if s.eq("observation data") {
+        } else if s.eq("observation data") || s.eq("obs data") {
             Ok(Self::ObservationData)
-        } else if s.eq("meteorological data") {
+        } else if s.eq("meteorological data") || s.eq("meteo data") {
             Ok(Self::MeteoData)
         } else if s.eq("clock data") || s.eq("c") {
             Ok(Self::ClockData)
-- 
2.43.0


From 16c637d7e1781fbe94df89c7838a110ac22b7134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 06/80] fix: receiver channel number pseudo observables parse,
 hail is the same physics as hail

---
 src/observable.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index f17bf8b..82655cf 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -70,7 +70,7 @@ impl Observable {
             Self::WindSpeed => matches!(rhs, Self::WindSpeed),
             Self::WindDirection => matches!(rhs, Self::WindDirection),
             Self::RainIncrement => matches!(rhs, Self::RainIncrement),
-            Self::HailIndicator => matches!(rhs, Self::RainIncrement),
+            Self::HailIndicator => matches!(rhs, Self::HailIndicator),
             Self::FrequencyRatio => matches!(rhs, Self::FrequencyRatio),
         }
     }
@@ -381,6 +381,8 @@ impl std::str::FromStr for Observable {
                         Ok(Self::Power(content.to_string()))
                     } else if content.starts_with('D') {
                         Ok(Self::Doppler(content.to_string()))
+                    } else if content.starts_with('X') {
+                        Ok(Self::ChannelNumber(content.to_string()))
                     } else {
                         Err(ParsingError::UnknownObservable)
                     }
-- 
2.43.0


From edbe437d0281fecd0395623dad5a02bcf7f52faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 07/80] fix: read the IONEX MAPPING FUNCTION label

---
 src/header/parsing.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index dfdbc2d..96f09ee 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -842,9 +842,12 @@ impl Header {
                 if let Ok(f) = f32::from_str(content.trim()) {
                     ionex = ionex.with_base_radius(f);
                 }
-            } else if marker.contains("MAPPING FUCTION") {
-                let mapf = IonexMappingFunction::from_str(content.trim())?;
-                ionex = ionex.with_mapping_function(mapf);
+            } else if marker.contains("MAPPING FUNCTION") {
+                // "NONE" when no mapping function was used
+                if content.trim() != "NONE" {
+                    let mapf = IonexMappingFunction::from_str(content.trim())?;
+                    ionex = ionex.with_mapping_function(mapf);
+                }
             } else if marker.contains("# OF STATIONS") {
                 // IONEX
                 if let Ok(u) = content.trim().parse::<u32>() {
-- 
2.43.0


From 4f6f23fe61b8e72572bda847c1e67a5868a7b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 08/80] fix: GLONASS G2 centre frequency is 1246 MHz, QZSS L6
 codes include E6Z, parse every carrier text form

---
 src/carrier.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index dab6242..55d59f4 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -132,6 +132,8 @@ impl std::str::FromStr for Carrier {
             Ok(Self::G2(None))
         } else if content.eq("G2A") {
             Ok(Self::G2a)
+        } else if content.eq("L3") || content.eq("G3") {
+            Ok(Self::G3)
         /*
          * BeiDou
          */
@@ -145,12 +147,19 @@ impl std::str::FromStr for Carrier {
             Ok(Self::B2)
         } else if content.eq("B2I") {
             Ok(Self::B2I)
+        } else if content.eq("B2A") {
+            Ok(Self::B2A)
         } else if content.eq("B2B") {
             Ok(Self::B2B)
         } else if content.eq("B3") {
             Ok(Self::B3)
         } else if content.eq("B3A") {
             Ok(Self::B3A)
+        /*
+         * IRNSS
+         */
+        } else if content.eq("S") {
+            Ok(Self::S)
         /*
          * DORIS
          */
@@ -188,8 +197,8 @@ impl Carrier {
             Self::G1(None) => 1602.0_f64,
             Self::G1(Some(c)) => 1602.0_f64 + (*c as f64 * 9.0 / 16.0),
             Self::G2a => 1248.06_f64,
-            Self::G2(None) => 1246.06_f64,
-            Self::G2(Some(c)) => 1246.06_f64 + (*c as f64 * 7.0 / 16.0),
+            Self::G2(None) => 1246.0_f64,
+            Self::G2(Some(c)) => 1246.0_f64 + (*c as f64 * 7.0 / 16.0),
             Self::G3 => 1202.025_f64,
             /*
              * BeiDou
@@ -505,7 +514,7 @@ impl Carrier {
     pub(crate) fn qzl6_codes() -> [&'static str; 24] {
         [
             "C6", "L6", "D6", "S6", "C6S", "L6S", "D6S", "S6S", "C6L", "L6L", "D6L", "S6L", "C6X",
-            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6S", "L6S", "D6S", "S6Z",
+            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6Z", "L6Z", "D6Z", "S6Z",
         ]
     }
     fn from_qzss_observable(obs: &Observable) -> Result<Self, Error> {
-- 
2.43.0


From 2d86ae5e2fd7e7b0b0c75a50d84399ee5ecce476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 09/80] fix: Galileo health flags follow the RINEX bit layout
 (E5b DVS is bit 6)

---
 src/navigation/health.rs | 7 ++++---
 src/navigation/orbits.rs | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/navigation/health.rs b/src/navigation/health.rs
index c56a325..512b916 100644
--- a/src/navigation/health.rs
+++ b/src/navigation/health.rs
@@ -90,15 +90,16 @@ bitflags! {
     #[derive(Debug, Default, Copy, Clone)]
     #[derive(PartialEq, PartialOrd)]
     #[cfg_attr(feature = "serde", derive(Serialize))]
-    pub struct GalHealth: u8 {
+    pub struct GalHealth: u16 {
         const E1B_DVS = 0x01;
         const E1B_HS0 = 0x02;
         const E1B_HS1 = 0x04;
         const E5A_DVS = 0x08;
         const E5A_HS0 = 0x10;
         const E5A_HS1 = 0x20;
-        const E5B_HS0 = 0x40;
-        const E5B_HS1 = 0x80;
+        const E5B_DVS = 0x40;
+        const E5B_HS0 = 0x80;
+        const E5B_HS1 = 0x100;
     }
 }
 
diff --git a/src/navigation/orbits.rs b/src/navigation/orbits.rs
index 808e657..fec9645 100644
--- a/src/navigation/orbits.rs
+++ b/src/navigation/orbits.rs
@@ -122,7 +122,7 @@ impl OrbitItem {
                         Ok(OrbitItem::GloHealth(flag))
                     },
                     Constellation::Galileo => {
-                        let flags = health::GalHealth::from_bits(unsigned as u8)
+                        let flags = health::GalHealth::from_bits(unsigned as u16)
                             .unwrap_or(health::GalHealth::empty());
                         Ok(OrbitItem::GalHealth(flags))
                     },
-- 
2.43.0


From 8a91bbaad3e39d122af5ddee72b20c61ed17493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 10/80] fix: BeiDou CNAV health fields no longer abort the
 parser

---
 src/navigation/orbits.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/navigation/orbits.rs b/src/navigation/orbits.rs
index fec9645..a312b07 100644
--- a/src/navigation/orbits.rs
+++ b/src/navigation/orbits.rs
@@ -131,6 +131,8 @@ impl OrbitItem {
                             .unwrap_or(health::IrnssHealth::default());
                         Ok(OrbitItem::IrnssHealth(flag))
                     },
+                    // B-CDM health indicator: no dedicated flags
+                    Constellation::BeiDou => Ok(OrbitItem::U32(unsigned)),
                     c => {
                         if c.is_sbas() {
                             let flag: health::GeoHealth = num::FromPrimitive::from_u32(unsigned)
-- 
2.43.0


From 5786a847d7d6920ccfb8e7e65811f8c507cb83a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 11/80] fix: DORIS signal and clock iterators yield the
 record's content

---
 src/doris/rinex/feature.rs | 22 ++++++++++++++++++++--
 src/doris/rinex/mod.rs     |  8 ++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/doris/rinex/feature.rs b/src/doris/rinex/feature.rs
index 077cb2b..621e313 100644
--- a/src/doris/rinex/feature.rs
+++ b/src/doris/rinex/feature.rs
@@ -28,13 +28,31 @@ impl Rinex {
     pub fn doris_ground_station_pseudo_range_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, f64)> + '_> {
-        Box::new([].into_iter())
+        Box::new(
+            self.doris_ground_station_signals_iter()
+                .filter_map(|(k, key, signal)| {
+                    if key.observable.is_pseudo_range_observable() {
+                        Some((k, signal.value))
+                    } else {
+                        None
+                    }
+                }),
+        )
     }
 
     /// Returns Iterator over all phase range observations from all ground stations, expressed in meters.
     pub fn doris_ground_station_phase_range_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, f64)> + '_> {
-        Box::new([].into_iter())
+        Box::new(
+            self.doris_ground_station_signals_iter()
+                .filter_map(|(k, key, signal)| {
+                    if key.observable.is_phase_range_observable() {
+                        Some((k, signal.value))
+                    } else {
+                        None
+                    }
+                }),
+        )
     }
 }
diff --git a/src/doris/rinex/mod.rs b/src/doris/rinex/mod.rs
index c617a5c..2c043d1 100644
--- a/src/doris/rinex/mod.rs
+++ b/src/doris/rinex/mod.rs
@@ -48,7 +48,7 @@ impl Rinex {
     pub fn doris_satellite_clock_offset_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, ClockObservation)> + '_> {
-        Box::new([].into_iter())
+        Box::new(self.doris_observation_iter().map(|(k, v)| (k.clone(), v.clock)))
     }
 
     /// Returns Iterator over all Ground [Station] observations, made by
@@ -57,6 +57,10 @@ impl Rinex {
     pub fn doris_ground_station_signals_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, SignalKey, SignalObservation)> + '_> {
-        Box::new([].into_iter())
+        Box::new(self.doris_observation_iter().flat_map(|(k, v)| {
+            v.signals
+                .iter()
+                .map(move |(key, signal)| (k.clone(), key.clone(), signal.clone()))
+        }))
     }
 }
-- 
2.43.0


From 33ad3ee4c74985f1a0c5b159bcc17aad81c0b6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 12/80] fix: SBAS ephemeris selection picks the closest
 message, not the farthest in the future

---
 src/navigation/rinex/feature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navigation/rinex/feature.rs b/src/navigation/rinex/feature.rs
index adc51a1..45eafda 100644
--- a/src/navigation/rinex/feature.rs
+++ b/src/navigation/rinex/feature.rs
@@ -63,7 +63,7 @@ impl Rinex {
                         None
                     }
                 })
-                .min_by_key(|(toc, _, _)| t - *toc)
+                .min_by_key(|(toc, _, _)| (t - *toc).abs())
         } else {
             self.nav_ephemeris_frames_iter()
                 .filter_map(|(k, eph)| {
-- 
2.43.0


From 0f8201423212132bda3efc5b4a39386c0bf47748 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 13/80] fix: null orbit parameters are values, Adot is read
 under its dictionary name

---
 src/navigation/ephemeris/kepler/mod.rs | 52 +++++++++++++-------------
 src/navigation/ephemeris/mod.rs        | 12 ++++--
 2 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/navigation/ephemeris/kepler/mod.rs b/src/navigation/ephemeris/kepler/mod.rs
index 4b73d41..f0a1b1a 100644
--- a/src/navigation/ephemeris/kepler/mod.rs
+++ b/src/navigation/ephemeris/kepler/mod.rs
@@ -62,13 +62,13 @@ impl Ephemeris {
     /// This only applies to MEO Ephemerides, not GEO and Glonass.
     pub fn kepler(&self) -> Option<Kepler> {
         Some(Kepler {
-            a: self.get_orbit_f64("sqrta")?.powf(2.0),
-            e: self.get_orbit_f64("e")?,
-            i_0: self.get_orbit_f64("i0")?,
-            omega: self.get_orbit_f64("omega")?,
-            omega_0: self.get_orbit_f64("omega0")?,
-            m_0: self.get_orbit_f64("m0")?,
-            toe: self.get_orbit_f64("toe")?,
+            a: self.orbit_f64("sqrta")?.powf(2.0),
+            e: self.orbit_f64("e")?,
+            i_0: self.orbit_f64("i0")?,
+            omega: self.orbit_f64("omega")?,
+            omega_0: self.orbit_f64("omega0")?,
+            m_0: self.orbit_f64("m0")?,
+            toe: self.orbit_f64("toe")?,
         })
     }
 
@@ -88,15 +88,17 @@ impl Ephemeris {
     /// Retrieves Orbit [Perturbations] from [Ephemeris]
     pub fn perturbations(&self) -> Option<Perturbations> {
         Some(Perturbations {
-            cuc: self.get_orbit_f64("cuc")?,
-            cus: self.get_orbit_f64("cus")?,
-            cic: self.get_orbit_f64("cic")?,
-            cis: self.get_orbit_f64("cis")?,
-            crc: self.get_orbit_f64("crc")?,
-            crs: self.get_orbit_f64("crs")?,
-            dn: self.get_orbit_f64("deltaN")?,
-            i_dot: self.get_orbit_f64("idot")?,
-            omega_dot: self.get_orbit_f64("omegaDot")?,
+            cuc: self.orbit_f64("cuc")?,
+            cus: self.orbit_f64("cus")?,
+            cic: self.orbit_f64("cic")?,
+            cis: self.orbit_f64("cis")?,
+            crc: self.orbit_f64("crc")?,
+            crs: self.orbit_f64("crs")?,
+            dn: self
+                .orbit_f64("deltaN")
+                .or_else(|| self.orbit_f64("deltaN0"))?,
+            i_dot: self.orbit_f64("idot")?,
+            omega_dot: self.orbit_f64("omegaDot")?,
         })
     }
 
@@ -136,9 +138,9 @@ impl Ephemeris {
     pub fn kepler2position(&self, sv: SV, t_sv: Epoch, t: Epoch) -> Option<Orbit> {
         if sv.constellation.is_sbas() || sv.constellation == Constellation::Glonass {
             let (x_km, y_km, z_km) = (
-                self.get_orbit_f64("satPosX")?,
-                self.get_orbit_f64("satPosY")?,
-                self.get_orbit_f64("satPosZ")?,
+                self.orbit_f64("satPosX")?,
+                self.orbit_f64("satPosY")?,
+                self.orbit_f64("satPosZ")?,
             );
             // TODO: velocity + integration
             Some(Orbit::from_position(x_km, y_km, z_km, t, IAU_EARTH_FRAME))
@@ -175,14 +177,14 @@ impl Ephemeris {
         //    SBAS navigation is not supported yet anyway
         if sv.constellation.is_sbas() || sv.constellation == Constellation::Glonass {
             let (x_km, y_km, z_km) = (
-                self.get_orbit_f64("satPosX")?,
-                self.get_orbit_f64("satPosY")?,
-                self.get_orbit_f64("satPosZ")?,
+                self.orbit_f64("satPosX")?,
+                self.orbit_f64("satPosY")?,
+                self.orbit_f64("satPosZ")?,
             );
             let (vel_x_km, vel_y_km, vel_z_km) = (
-                self.get_orbit_f64("velX")?,
-                self.get_orbit_f64("velY")?,
-                self.get_orbit_f64("velZ")?,
+                self.orbit_f64("velX")?,
+                self.orbit_f64("velY")?,
+                self.orbit_f64("velZ")?,
             );
 
             let position = Vector3::new(x_km, y_km, z_km);
diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index c07d8ee..ec779b1 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -59,6 +59,12 @@ impl Ephemeris {
         }
     }
 
+    /// Retrieve the value stored for this orbital parameter, whatever it is: a null value is a valid
+    /// Keplerian element, perturbation or time of ephemeris.
+    pub(crate) fn orbit_f64(&self, field: &str) -> Option<f64> {
+        self.orbits.get(field)?.as_f64()
+    }
+
     /// Add a new orbital parameters, encoded as f64.
     pub(crate) fn set_orbit_f64(&mut self, field: &str, value: f64) {
         self.orbits
@@ -73,7 +79,7 @@ impl Ephemeris {
 
     /// Returns TGD (if value exists) as [Duration]
     pub fn tgd(&self) -> Option<Duration> {
-        let tgd_s = self.get_orbit_f64("tgd")?;
+        let tgd_s = self.orbit_f64("tgd")?;
         Some(Duration::from_seconds(tgd_s))
     }
 
@@ -92,7 +98,7 @@ impl Ephemeris {
     pub fn toe(&self, sv_ts: TimeScale) -> Option<Epoch> {
         // TODO: in CNAV V4 TOC is said to be TOE... ...
         let week = self.get_week()?;
-        let sec = self.get_orbit_f64("toe")?;
+        let sec = self.orbit_f64("toe")?;
         let week_dur = Duration::from_days((week * 7) as f64);
         let sec_dur = Duration::from_seconds(sec);
         match sv_ts {
@@ -110,7 +116,7 @@ impl Ephemeris {
 
     /// Returns Adot parameter from a CNAV ephemeris
     pub(crate) fn a_dot(&self) -> Option<f64> {
-        self.get_orbit_f64("a_dot")
+        self.orbit_f64("adot")
     }
 }
 
-- 
2.43.0


From c0ef4415a72ec90090428fb66c7a8471d60439fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:48 +0000
Subject: [PATCH 14/80] fix: velocity is the derivative of the position, for
 BeiDou GEO too

---
 src/navigation/ephemeris/kepler/helper.rs | 110 +++++++---------------
 1 file changed, 35 insertions(+), 75 deletions(-)

diff --git a/src/navigation/ephemeris/kepler/helper.rs b/src/navigation/ephemeris/kepler/helper.rs
index b081122..56e9cf2 100644
--- a/src/navigation/ephemeris/kepler/helper.rs
+++ b/src/navigation/ephemeris/kepler/helper.rs
@@ -70,6 +70,30 @@ impl Helper {
         (fd_x, fd_y)
     }
 
+    /// Returns velocity [Vector3] in m/s, after rotation by ascending node and inclination
+    fn orbital_plane_velocity(&self) -> Vector3 {
+        let (x, y, _) = self.r_sv;
+        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
+        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
+        // First Derivative of orbit position
+        let (fd_x, fd_y) = self.orbit_velocity();
+        // First Derivative of rotation Matrix
+        let mut fd_r = SMatrix::<f64, 3, 4>::zeros();
+        fd_r[(0, 0)] = cos_omega_k;
+        fd_r[(0, 1)] = -sin_omega_k * cos_i_k;
+        fd_r[(0, 2)] = -(x * sin_omega_k + y * cos_omega_k * cos_i_k);
+        fd_r[(0, 3)] = y * sin_omega_k * sin_i_k;
+        fd_r[(1, 0)] = sin_omega_k;
+        fd_r[(1, 1)] = cos_omega_k * cos_i_k;
+        fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
+        fd_r[(1, 3)] = -y * cos_omega_k * sin_i_k;
+        fd_r[(2, 1)] = sin_i_k;
+        fd_r[(2, 3)] = y * cos_i_k;
+
+        let rhs = Vector4::new(fd_x, fd_y, self.fd_omega_k, self.fd_i_k);
+        fd_r * rhs
+    }
+
     /// Calculate ecef position [km].
     pub fn ecef_position(&self) -> Vector3 {
         if self.sv.is_beidou_geo() {
@@ -87,30 +111,9 @@ impl Helper {
         if self.sv.is_beidou_geo() {
             self.beidou_geo_ecef_velocity()
         } else {
-            let (x, y, _) = self.r_sv;
-            let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-            let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-            // First Derivative of orbit position
-            let (fd_x, fd_y) = self.orbit_velocity();
-            // First Derivative of rotation Matrix
-            let mut fd_r = SMatrix::<f64, 3, 4>::zeros();
-            fd_r[(0, 0)] = cos_omega_k;
-            fd_r[(0, 1)] = -sin_omega_k * cos_i_k;
-            fd_r[(0, 2)] = -(x * sin_omega_k + y * cos_omega_k * cos_i_k);
-            fd_r[(0, 3)] = y * sin_omega_k * sin_i_k;
-            fd_r[(1, 0)] = sin_omega_k;
-            fd_r[(1, 1)] = cos_omega_k * cos_i_k;
-            fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
-            fd_r[(1, 3)] = y * cos_omega_k * sin_i_k;
-            fd_r[(2, 1)] = sin_i_k;
-            fd_r[(2, 3)] = y * cos_i_k;
-
-            let rhs = Vector4::new(fd_x, fd_y, self.fd_omega_k, self.fd_i_k);
-            let vel = fd_r * rhs;
-            vel / 1000.0
+            self.orbital_plane_velocity() / 1000.0
         }
     }
-
     /// Returns ECEF (position, velocity) [Vector3] in (km, km/s).
     pub fn ecef_pv(&self) -> (Vector3, Vector3) {
         (self.ecef_position(), self.ecef_velocity())
@@ -127,63 +130,16 @@ impl Helper {
 
     /// Returns ECEF velocity [Vector3] in km/s, for BeiDou GEO specifically
     pub fn beidou_geo_ecef_velocity(&self) -> Vector3 {
-        let (x, y, _) = self.r_sv;
-        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-        let (fd_x, fd_y) = self.orbit_velocity();
-        let fd_xgk = -y * self.fd_omega_k - fd_y * cos_i_k * sin_omega_k + fd_x * cos_omega_k;
-        let fd_ygk = x * self.fd_omega_k + fd_y * cos_i_k * cos_omega_k + fd_x * sin_omega_k;
-        let fd_zgk = fd_y * sin_i_k + y * self.fd_i_k * cos_i_k;
-
-        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0);
-        let rz = Rotation3::from_axis_angle(&Vector3::z_axis(), -Omega::BDS * self.t_k);
-        let (sin_omega_tk, cos_omega_tk) = (Omega::BDS * self.t_k).sin_cos();
-        let fd_rz = self.fd_omega_k
-            * Matrix3::new(
-                -sin_omega_tk,
-                cos_omega_tk,
-                0.0,
-                -cos_omega_tk,
-                -sin_omega_tk,
-                0.0,
-                0.0,
-                0.0,
-                0.0,
-            );
-        let pos = self.beidou_geo_ecef_position();
-        let fd_pos = Vector3::new(fd_xgk, fd_ygk, fd_zgk);
-        let vel = fd_rz * rx * pos + rz * rx * fd_pos;
-        vel
+        self.beidou_geo_ecef_pv().1
     }
 
     /// Returns ECEF (position, velocity) [Vector3]s in (km, km/s), for BeiDou GEO specifically.
     pub fn beidou_geo_ecef_pv(&self) -> (Vector3, Vector3) {
-        let (x, y, _) = self.r_sv;
-        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-        let (fd_x, fd_y) = self.orbit_velocity();
-        let fd_xgk = -y * self.fd_omega_k - fd_y * cos_i_k * sin_omega_k + fd_x * cos_omega_k;
-        let fd_ygk = x * self.fd_omega_k + fd_y * cos_i_k * cos_omega_k + fd_x * sin_omega_k;
-        let fd_zgk = fd_y * sin_i_k + y * self.fd_i_k * cos_i_k;
-
-        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0);
-        let rz = Rotation3::from_axis_angle(&Vector3::z_axis(), -Omega::BDS * self.t_k);
-        let (sin_omega_tk, cos_omega_tk) = (Omega::BDS * self.t_k).sin_cos();
-        let fd_rz = self.fd_omega_k
-            * Matrix3::new(
-                -sin_omega_tk,
-                cos_omega_tk,
-                0.0,
-                -cos_omega_tk,
-                -sin_omega_tk,
-                0.0,
-                0.0,
-                0.0,
-                0.0,
-            );
         let pos = self.beidou_geo_ecef_position();
-        let fd_pos = Vector3::new(fd_xgk, fd_ygk, fd_zgk);
-        let vel = fd_rz * rx * pos + rz * rx * fd_pos;
+        let rotation = self.geo_orbit_to_ecef_rotation_matrix();
+        // the GEO frame rotates around ECEF Z axis, at Earth rotation rate
+        let frame_vel = Vector3::new(Omega::BDS * pos[1], -Omega::BDS * pos[0], 0.0);
+        let vel = rotation * self.orbital_plane_velocity() / 1000.0 + frame_vel;
         (pos, vel)
     }
 
@@ -292,7 +248,11 @@ impl Ephemeris {
         let di_k = perturbations.cis * x2_sin_phi_k + perturbations.cic * x2_cos_phi_k;
 
         // first derivatives
-        let fd_omega_k = perturbations.omega_dot - omega;
+        let fd_omega_k = if sv.is_beidou_geo() {
+            perturbations.omega_dot
+        } else {
+            perturbations.omega_dot - omega
+        };
 
         let fd_e_k = n / (1.0 - kepler.e * e_k.cos());
         let fd_phi_k = ((1.0 + kepler.e) / (1.0 - kepler.e)).sqrt()
-- 
2.43.0


From a13313b224e60e15cfd46df15d3adab5e6efd013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 15/80] fix: the Kepler equation solver stops at its iteration
 limit

---
 src/navigation/ephemeris/kepler/helper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/navigation/ephemeris/kepler/helper.rs b/src/navigation/ephemeris/kepler/helper.rs
index 56e9cf2..492f262 100644
--- a/src/navigation/ephemeris/kepler/helper.rs
+++ b/src/navigation/ephemeris/kepler/helper.rs
@@ -221,6 +221,9 @@ impl Ephemeris {
                 break;
             }
             i += 1;
+            if i >= Constants::MAX_KEPLER_ITER {
+                break;
+            }
             e_k_lst = e_k;
         }
 
-- 
2.43.0


From 0ba6ba2d7b061f5c22de3bbf37028075edbbaf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 16/80] fix: antennas are matched by serial number against
 their serial number

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 309b966..8811c7b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1462,7 +1462,13 @@ impl Rinex {
                         }
                     },
                     AntennaMatcher::SerialNumber(sn) => {
-                        if rx_ant.igs_type.to_lowercase().eq(sn) {
+                        if rx_ant
+                            .serial_number
+                            .as_ref()
+                            .map(|serial| serial.to_lowercase())
+                            .as_ref()
+                            == Some(sn)
+                        {
                             freqdata
                                 .get(&freq)
                                 .map(|freqdata| freqdata.apc_eccentricity)
-- 
2.43.0


From 33fea400dcbdc6822d224a2feba30c13c96a3003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 17/80] fix: the IONEX MIX model is not taken for the Mixed
 constellation

---
 src/ionex/system.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ionex/system.rs b/src/ionex/system.rs
index 37e880d..4cf57c4 100644
--- a/src/ionex/system.rs
+++ b/src/ionex/system.rs
@@ -119,14 +119,15 @@ impl std::fmt::Display for RefSystem {
 impl FromStr for RefSystem {
     type Err = ParsingError;
     fn from_str(system: &str) -> Result<Self, Self::Err> {
-        if let Ok(gnss) = Constellation::from_str(system) {
-            Ok(Self::GnssConstellation(gnss))
-        } else if system.eq("GNSS") {
-            Ok(Self::GnssConstellation(Constellation::Mixed))
-        } else if let Ok(obs) = ObsSystem::from_str(system) {
+        // "MIX" is also a valid constellation description: exact names come first
+        if let Ok(obs) = ObsSystem::from_str(system) {
             Ok(Self::ObservationSystem(obs))
         } else if let Ok(m) = Model::from_str(system) {
             Ok(Self::Model(m))
+        } else if let Ok(gnss) = Constellation::from_str(system) {
+            Ok(Self::GnssConstellation(gnss))
+        } else if system.eq("GNSS") {
+            Ok(Self::GnssConstellation(Constellation::Mixed))
         } else {
             Err(ParsingError::IonexReferenceSystem)
         }
-- 
2.43.0


From 3eb433960103e19bdfea79f18a60e23647bd27c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 18/80] fix: antenna height and eccentricities are read from
 their three 14 column fields

---
 src/header/parsing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 96f09ee..6844046 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -519,9 +519,9 @@ impl Header {
                 }
             } else if marker.contains("ANTENNA: DELTA H/E/N") {
                 // Antenna H/E/N eccentricity components
-                let (h, rem) = content.split_at(15);
-                let (e, rem) = rem.split_at(15);
-                let (n, _) = rem.split_at(15);
+                let (h, rem) = content.split_at(14);
+                let (e, rem) = rem.split_at(14);
+                let (n, _) = rem.split_at(14);
                 if let Ok(h) = f64::from_str(h.trim()) {
                     if let Ok(e) = f64::from_str(e.trim()) {
                         if let Ok(n) = f64::from_str(n.trim()) {
-- 
2.43.0


From 17d586c7ff848db7e09059269bf7655e1f4c2917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:57 +0000
Subject: [PATCH 19/80] fix: marker names are read up to column 60

---
 src/header/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 6844046..dcf705d 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -284,7 +284,7 @@ impl Header {
                     date = Some(date_str.to_string());
                 }
             } else if marker.contains("MARKER NAME") {
-                let name = content.split_at(20).0.trim();
+                let name = content.trim();
                 geodetic_marker = Some(GeodeticMarker::default().with_name(name));
             } else if marker.contains("MARKER NUMBER") {
                 let number = content.split_at(20).0.trim();
-- 
2.43.0


From 64df81199e409c63bd829acc00457c4c5b092ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:22 +0000
Subject: [PATCH 20/80] fix: the number of satellites of IONEX headers is read

---
 src/header/parsing.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index dcf705d..5409e19 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -547,9 +547,6 @@ impl Header {
                     i32::from_str_radix(value, 10).or(Err(ParsingError::RcvClockOffsApplied))?;
 
                 observation.clock_offset_applied = n > 0;
-            } else if marker.contains("# OF SATELLITES") {
-                // ---> we don't need this info,
-                //     user can determine it by analyzing the record
             } else if marker.contains("PRN / # OF OBS") {
                 // ---> we don't need this info,
                 //     user can determine it by analyzing the record
-- 
2.43.0


From 913715cf18ab45e2fc8851fdee180b01abe453ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 21/80] fix: sub second digits of epochs are read at their own
 scale

---
 src/epoch.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 0a2ff97..eb48fd2 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -151,26 +151,23 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
             },
             5 => {
                 if let Some(dot) = item.find('.') {
-                    let is_nav = item.trim().len() < 7;
-
                     ss = item[..dot]
                         .trim()
                         .parse::<u8>()
                         .map_err(|_| ParsingError::EpochParsing)?;
 
-                    let nanos = item[dot + 1..].trim();
+                    let decimals = item[dot + 1..].trim();
+
+                    if decimals.len() > 9 {
+                        return Err(ParsingError::EpochParsing);
+                    }
 
-                    ns = nanos
+                    // fraction of second, whatever its precision
+                    ns = decimals
                         .parse::<u64>()
                         .map_err(|_| ParsingError::EpochParsing)?;
 
-                    if is_nav {
-                        // NAV RINEX : 100ms precision
-                        ns *= 100_000_000;
-                    } else if nanos.len() != 9 {
-                        // OBS RINEX : 100ns precision
-                        ns *= 100;
-                    }
+                    ns *= 10_u64.pow(9 - decimals.len() as u32);
                 } else {
                     ss = item
                         .trim()
@@ -207,7 +204,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                 return Err(ParsingError::EpochFormat);
             }
             let epoch = Epoch::from_gregorian_str(&format!(
-                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06} {}",
+                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09} {}",
                 y, m, d, hh, mm, ss, ns, ts
             ))?;
             Ok(epoch)
-- 
2.43.0


From d9b8bddeecca38df5394bbecaa72ecff0cc11ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 22/80] fix: TIME OF FIRST/LAST OBS are read with their
 timescale and sub second digits

---
 src/header/parsing.rs | 56 +++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 5409e19..b0029fb 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -560,32 +560,17 @@ impl Header {
                 // <o repeated for each satellite system
                 // <o blank field when no corrections applied
             } else if marker.contains("TIME OF FIRST OBS") {
-                let mut time_of_first_obs = Self::parse_time_of_obs(content)?;
-                match constellation {
-                    Some(Constellation::Mixed) | None => {},
-                    Some(c) => {
-                        // in case of OLD RINEX : fixed constellation
-                        //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_first_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
-                    },
-                }
+                let time_of_first_obs =
+                    Self::parse_time_of_obs_system(content, constellation)?;
+
                 if rinex_type == Type::DORIS {
                     doris.timeof_first_obs = Some(time_of_first_obs);
                 } else {
                     observation = observation.with_timeof_first_obs(time_of_first_obs);
                 }
             } else if marker.contains("TIME OF LAST OBS") {
-                let mut time_of_last_obs = Self::parse_time_of_obs(content)?;
-                match constellation {
-                    Some(Constellation::Mixed) | None => {},
-                    Some(c) => {
-                        // in case of OLD RINEX : fixed constellation
-                        //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_last_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
-                    },
-                }
+                let time_of_last_obs =
+                    Self::parse_time_of_obs_system(content, constellation)?;
 
                 if rinex_type == Type::DORIS {
                     doris.timeof_last_obs = Some(time_of_last_obs);
@@ -965,6 +950,14 @@ impl Header {
     }
 
     fn parse_time_of_obs(content: &str) -> Result<Epoch, ParsingError> {
+        Self::parse_time_of_obs_system(content, None)
+    }
+
+    // Timescale may be omitted in old single constellation RINEX
+    fn parse_time_of_obs_system(
+        content: &str,
+        constellation: Option<Constellation>,
+    ) -> Result<Epoch, ParsingError> {
         let (_, rem) = content.split_at(2);
         let (y, rem) = rem.split_at(4);
         let (m, rem) = rem.split_at(6);
@@ -1013,10 +1006,13 @@ impl Header {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        let ns = ns
-            .trim()
+        // fraction of second, whatever its precision
+        let decimals = ns.trim();
+
+        let ns = decimals
             .parse::<u32>()
-            .map_err(|_| ParsingError::DatetimeParsing)?;
+            .map_err(|_| ParsingError::DatetimeParsing)?
+            * 10_u32.pow(9 - decimals.len() as u32);
 
         /*
          * We set TAI as "default" Timescale.
@@ -1030,12 +1026,20 @@ impl Header {
          * Handles DORIS measurement special case,
          * offset from TAI, that we will convert back to TAI later
          */
-        if !rem.is_empty() && rem != "DOR" {
-            ts = TimeScale::from_str(rem.trim())?;
+        match constellation {
+            Some(Constellation::Mixed) | None => {
+                if !rem.is_empty() && rem != "DOR" {
+                    ts = TimeScale::from_str(rem.trim())?;
+                }
+            },
+            Some(c) => {
+                // timescale of a single constellation: is always that of the constellation
+                ts = c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
+            },
         }
 
         Epoch::from_str(&format!(
-            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:08} {}",
+            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09} {}",
             y, m, d, hh, mm, ss, ns, ts
         ))
         .map_err(|_| ParsingError::DatetimeParsing)
-- 
2.43.0


From 7b32c551ee304cb65165d0875adb9814fd8f0f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:05 +0000
Subject: [PATCH 23/80] fix: ionospheric corrections are accepted in both
 orders

---
 src/header/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index b0029fb..bed99c4 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -760,7 +760,7 @@ impl Header {
                         // KB requires two lines
                         if let Some(ionod_model) = ionod_corrections.get_mut(&constell) {
                             let kb_model = ionod_model.as_klobuchar_mut().unwrap();
-                            if model_id.ends_with('A') {
+                            if model_id.trim_end().ends_with('A') {
                                 kb_model.alpha = alpha;
                                 kb_model.region = region;
                             } else {
-- 
2.43.0


From 97a10b7b43495b97da41c28908c08e336dcb6dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 24/80] fix: leap second fields are read whatever their number
 of digits

---
 src/leap.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/leap.rs b/src/leap.rs
index fbceb84..97c70f8 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -92,11 +92,17 @@ impl std::str::FromStr for Leap {
             ls.leap = items[0].parse::<u32>().or(Err(ParsingError::LeapParsing))?;
         } else {
             // Complex / complete format
-            let (leap, rem) = s.split_at(5);
-            let (tls, rem) = rem.split_at(5);
-            let (week, rem) = rem.split_at(5);
-            let (day, rem) = rem.split_at(5);
-            let system = rem.trim();
+            if count < 4 {
+                return Err(ParsingError::LeapParsing);
+            }
+
+            let (leap, tls, week) = (items[0], items[1], items[2]);
+
+            // timescale may directly follow the day of week
+            let (day, system) = match items[3].find(|c: char| c.is_ascii_alphabetic()) {
+                Some(offset) => items[3].split_at(offset),
+                None => (items[3], items.get(4).copied().unwrap_or("")),
+            };
 
             ls.leap = leap
                 .trim()
-- 
2.43.0


From f6b0b426f24c49667fb6b835b522b81333848856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 25/80] fix: V3 observations are read in their own columns

---
 src/observation/parsing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index c81df9b..6905eb9 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -493,7 +493,7 @@ fn parse_signals_v3(
         let observables = observables.unwrap();
 
         let num_obs = line.len() / OBSERVABLE_WIDTH;
-        let mut offset = SVNN_SIZE + 1;
+        let mut offset = SVNN_SIZE;
 
         for i in 0..num_obs {
             if i == observables.len() {
@@ -507,7 +507,7 @@ fn parse_signals_v3(
             let mut lli = Option::<LliFlags>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH {
-                let start = offset + OBSERVABLE_F14_WIDTH - 1;
+                let start = offset + OBSERVABLE_F14_WIDTH;
                 let lli_slice = &line[start..start + 1];
                 match lli_slice.parse::<u8>() {
                     Ok(unsigned) => {
@@ -523,7 +523,7 @@ fn parse_signals_v3(
             let mut snr = Option::<SNR>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH + 1 {
-                let start = offset + OBSERVABLE_F14_WIDTH;
+                let start = offset + OBSERVABLE_F14_WIDTH + 1;
                 let snr_slice = &line[start..start + 1];
 
                 if let Ok(value) = snr_slice.parse::<u8>() {
-- 
2.43.0


From 39208b9bceefda7b2dd833bb4b4282ebd266c457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:52 +0000
Subject: [PATCH 26/80] fix: trailing blanks in a V2 observation line do not
 end the epoch

---
 src/observation/parsing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 6905eb9..56787b4 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -364,8 +364,8 @@ fn parse_signals_v2(
         // process all of them
         for _ in 0..num_obs {
             if obs_ptr >= observables.len() {
-                // line is abnormally long (trailing whitespaces): abort
-                return;
+                // trailing whitespaces: nothing else to parse in this line
+                break;
             }
 
             let end = (offset + OBSERVABLE_WIDTH).min(line_width);
-- 
2.43.0


From d856e08436755c20263706df3f682087d5aa992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:52 +0000
Subject: [PATCH 27/80] fix: V2 satellite list keeps its columns when the
 system is blank

---
 src/observation/parsing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 56787b4..c4f0b7b 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -171,7 +171,8 @@ fn parse_observations(
     let observables = &obs.codes;
 
     // V1 / V2 tedious case
-    let rem = rem.trim();
+    // (3 columns per vehicle, possibly starting with a blank system)
+    let rem = rem.trim_end();
     let remainder_len = rem.len();
 
     if header.version.major < 3 {
@@ -187,7 +188,10 @@ fn parse_observations(
         // grab following lines (if we need to)
         while systems_str_len / 3 < num_sat.into() {
             if let Some(line) = lines.next() {
-                let trimmed = line.trim();
+                let trimmed = match line.get(..32) {
+                    Some(blank) if blank.trim().is_empty() => line[32..].trim_end(),
+                    _ => line.trim(),
+                };
                 systems_str_len += trimmed.len();
                 systems_str.push_str(trimmed);
             } else {
-- 
2.43.0


From 65f0aebd29d02a742d88606ed778a8b274ad6bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 28/80] fix: an epoch without observations is a line of its own
 in V2 files

---
 src/observation/formatting.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/observation/formatting.rs b/src/observation/formatting.rs
index 8b14ac3..c1f055c 100644
--- a/src/observation/formatting.rs
+++ b/src/observation/formatting.rs
@@ -148,6 +148,10 @@ impl Observations {
             }
         }
 
+        if numsat == 0 {
+            write!(w, "{}", '\n')?;
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 6e9cb8a18b746a05f2009ed93745997d36de23b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 29/80] fix: V3 receiver clock offset is written in its
 columns, with all its digits

---
 src/observation/formatting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observation/formatting.rs b/src/observation/formatting.rs
index c1f055c..4d6dbec 100644
--- a/src/observation/formatting.rs
+++ b/src/observation/formatting.rs
@@ -235,7 +235,7 @@ impl Observations {
         if let Some(clock) = self.clock {
             writeln!(
                 w,
-                "> {}  {} {:2}  {:13.4}",
+                "> {}  {} {:2}      {:15.12}",
                 epoch_format(key.epoch, RinexType::ObservationData, 3),
                 key.flag,
                 numsat,
-- 
2.43.0


From d101c265a2ceb61e1ed5dbf309fd008b68347f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:57 +0000
Subject: [PATCH 30/80] fix: GLONASS slots are written on complete header
 lines, whatever their number

---
 src/header/formatting.rs | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index e75727e..19f33da 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -9,6 +9,8 @@ use crate::{
 
 use std::io::{BufWriter, Write};
 
+use itertools::Itertools;
+
 impl Header {
     /// Formats [Header] into [Write]able interface, using efficient buffering.
     pub fn format<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
@@ -62,34 +64,19 @@ impl Header {
             leap.format(w)?;
         }
 
+        // GLONASS SLOT / FRQ #: I3,1X,8(A1,I2.2,1X,I2,1X), continued on as many lines as needed
         let num_channels = self.glo_channels.len();
+        let mut line = format!("{:3} ", num_channels);
 
-        if num_channels > 0 {
-            write!(w, "{:3} ", num_channels,)?;
-        }
-
-        let mut modulo = 0;
-        for (nth, (sv, channel)) in self.glo_channels.iter().enumerate() {
-            write!(w, "{:x} {:2} ", sv, channel,)?;
+        for (nth, (sv, channel)) in self.glo_channels.iter().sorted().enumerate() {
+            line.push_str(&format!("{:x} {:2} ", sv, channel));
 
-            if nth == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                write!(w, "GLONASS SLOT / FRQ #\n    ")?;
-            } else {
-                if (nth % NUM_GLO_CHANNELS_PER_LINE) == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                    write!(w, "GLONASS SLOT / FRQ #\n    ")?;
-                }
+            if nth + 1 == num_channels
+                || (nth % NUM_GLO_CHANNELS_PER_LINE) == NUM_GLO_CHANNELS_PER_LINE - 1
+            {
+                writeln!(w, "{}", fmt_rinex(&line, "GLONASS SLOT / FRQ #"))?;
+                line = "    ".to_string();
             }
-
-            modulo = nth % NUM_GLO_CHANNELS_PER_LINE;
-        }
-
-        if modulo > 0 && modulo != NUM_GLO_CHANNELS_PER_LINE - 1 {
-            writeln!(
-                w,
-                "{:>width$}",
-                "GLONASS SLOT / FRQ #",
-                width = 79 - 9 - (modulo + 1) * 6
-            )?;
         }
 
         //TODO
-- 
2.43.0


From 5b50821fa1b248e4497a1591bc5a9a86cd392e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 31/80] fix: clock data types are written on a complete header
 line

---
 src/clock/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/clock/mod.rs b/src/clock/mod.rs
index 5b58c88..86b481d 100644
--- a/src/clock/mod.rs
+++ b/src/clock/mod.rs
@@ -92,16 +92,14 @@ impl WorkClock {
 impl HeaderFields {
     /// Formats [HeaderFields] into [BufWriter].
     pub(crate) fn format<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
-        write!(w, "{:6}", self.codes.len())?;
+        let mut types = format!("{:6}", self.codes.len());
 
-        for (nth, code) in self.codes.iter().enumerate() {
-            write!(w, "{:6}", code,)?;
-
-            if nth % 9 == 8 {
-                writeln!(w, "# / TYPES OF DATA\n      ")?;
-            }
+        for code in self.codes.iter() {
+            types.push_str(&format!("    {}", code));
         }
 
+        writeln!(w, "{}", fmt_rinex(&types, "# / TYPES OF DATA"))?;
+
         // possible timescale
         if let Some(ts) = self.timescale {
             writeln!(
-- 
2.43.0


From 1714b6676aa6003678f88b230dcf469531488539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 32/80] fix: lists of observables get exactly one label per
 line, whatever their number

---
 src/meteo/header.rs       | 12 ++++++------
 src/observation/header.rs | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/meteo/header.rs b/src/meteo/header.rs
index 1e709c9..fecdf61 100644
--- a/src/meteo/header.rs
+++ b/src/meteo/header.rs
@@ -30,7 +30,6 @@ impl HeaderFields {
         const NUM_OBSERVABLES_PER_LINE: usize = 9;
 
         write!(w, "{:6}", self.codes.len())?;
-        let mut modulo = 0;
 
         for (nth, observable) in self.codes.iter().enumerate() {
             if nth > 0 && (nth % NUM_OBSERVABLES_PER_LINE) == 0 {
@@ -40,18 +39,19 @@ impl HeaderFields {
             write!(w, "    {}", observable)?;
 
             if (nth % NUM_OBSERVABLES_PER_LINE) == NUM_OBSERVABLES_PER_LINE - 1 {
-                write!(w, "# / TYPES OF OBSERV\n      ")?;
+                writeln!(w, "# / TYPES OF OBSERV")?;
             }
-
-            modulo = nth % NUM_OBSERVABLES_PER_LINE;
         }
 
-        if modulo != 7 {
+        // label of the last line, when it is not a full one
+        let remaining = self.codes.len() % NUM_OBSERVABLES_PER_LINE;
+
+        if remaining > 0 || self.codes.is_empty() {
             writeln!(
                 w,
                 "{:>width$}",
                 "# / TYPES OF OBSERV",
-                width = 79 - 6 - (modulo + 1) * 6
+                width = 79 - 6 - remaining * 6
             )?;
         }
 
diff --git a/src/observation/header.rs b/src/observation/header.rs
index b419fce..8972043 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -91,7 +91,6 @@ impl HeaderFields {
     fn format_v1_observables<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
         if let Some((_, observables)) = self.codes.iter().next() {
             write!(w, "{:6}", observables.len())?;
-            let mut modulo = 0;
 
             for (nth, observable) in observables.iter().enumerate() {
                 if nth > 0 && (nth % 9) == 0 {
@@ -103,16 +102,17 @@ impl HeaderFields {
                 if (nth % 9) == 8 {
                     writeln!(w, "# / TYPES OF OBSERV")?;
                 }
-
-                modulo = nth % 9;
             }
 
-            if modulo != 7 {
+            // label of the last line, when it is not a full one
+            let remaining = observables.len() % 9;
+
+            if remaining > 0 || observables.is_empty() {
                 writeln!(
                     w,
                     "{:>width$}",
                     "# / TYPES OF OBSERV",
-                    width = 79 - 6 - (modulo + 1) * 6
+                    width = 79 - 6 - remaining * 6
                 )?;
             }
         }
-- 
2.43.0


From 311d92af7886f0edcf905347a52034c3fec755de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:36 +0000
Subject: [PATCH 33/80] fix: antenna reference point is written under the label
 it is read from

---
 src/hardware.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hardware.rs b/src/hardware.rs
index 4436c7c..7b8561d 100644
--- a/src/hardware.rs
+++ b/src/hardware.rs
@@ -109,7 +109,7 @@ impl Antenna {
                 "{}",
                 fmt_rinex(
                     &format!("{:14.4}{:14.4}{:14.4}", coords.0, coords.1, coords.2),
-                    "APPROX POSITION XYZ"
+                    "ANTENNA: DELTA X/Y/Z"
                 )
             )?;
         }
-- 
2.43.0


From d6f5f97838f03852efc7dbb9ba7cfb58e0cfeaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:32 +0000
Subject: [PATCH 34/80] fix: QZSS time system label is three letters, as its
 columns

---
 src/observation/header.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/observation/header.rs b/src/observation/header.rs
index 8972043..91fdbb5 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -50,7 +50,7 @@ impl HeaderFields {
             let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
             writeln!(
                 w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF FIRST OBS",
+                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:<3.3}         TIME OF FIRST OBS",
                 y,
                 m,
                 d,
@@ -58,7 +58,7 @@ impl HeaderFields {
                 mm,
                 ss,
                 ns / 100,
-                t.time_scale,
+                format!("{:x}", t.time_scale), // QZSST: QZS
             )?;
         }
 
@@ -66,7 +66,7 @@ impl HeaderFields {
             let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
             writeln!(
                 w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF LAST OBS",
+                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:<3.3}         TIME OF LAST OBS",
                 y,
                 m,
                 d,
@@ -74,7 +74,7 @@ impl HeaderFields {
                 mm,
                 ss,
                 ns / 100,
-                t.time_scale,
+                format!("{:x}", t.time_scale), // QZSST: QZS
             )?;
         }
 
-- 
2.43.0


From cb43ab8d91004de1e6cb0b8b0d0590b19da5635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:32 +0000
Subject: [PATCH 35/80] fix: GLO and QZS time system labels are understood

---
 src/epoch.rs          | 9 +++++++++
 src/header/parsing.rs | 7 +++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index eb48fd2..8df5a34 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -31,6 +31,15 @@ pub fn parse_formatted_month(content: &str) -> Result<u8, ParsingError> {
     }
 }
 
+/// Parses a (three letter) time system label
+pub(crate) fn parse_time_system(label: &str) -> Result<TimeScale, ParsingError> {
+    match label {
+        "GLO" => Ok(TimeScale::UTC),
+        "QZS" => Ok(TimeScale::QZSST),
+        label => Ok(TimeScale::from_str(label)?),
+    }
+}
+
 /// Formats given epoch to string, matching standard specifications
 pub(crate) fn format(epoch: Epoch, t: Type, revision: u8) -> String {
     let (y, m, d, hh, mm, ss, nanos) = epoch_decompose(epoch);
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index bed99c4..7de3220 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -3,7 +3,7 @@ use crate::{
     antex::{HeaderFields as AntexHeader, Pcv},
     clock::{ClockProfileType, HeaderFields as ClockHeader, WorkClock},
     doris::{HeaderFields as DorisHeader, Station as DorisStation},
-    epoch::parse_ionex_utc as parse_ionex_utc_epoch,
+    epoch::{parse_ionex_utc as parse_ionex_utc_epoch, parse_time_system},
     hardware::{Antenna, Receiver, SvAntenna},
     hatanaka::CRINEX,
     header::{DcbCompensation, Header, PcvCompensation},
@@ -792,8 +792,7 @@ impl Header {
                 //    time_corrections.insert(ts, (ts, corr));
                 //}
             } else if marker.contains("TIME SYSTEM ID") {
-                let timescale = content.trim();
-                let ts = TimeScale::from_str(timescale)?;
+                let ts = parse_time_system(content.trim())?;
                 clock = clock.timescale(ts);
             } else if marker.contains("DESCRIPTION") {
                 // IONEX description
@@ -1029,7 +1028,7 @@ impl Header {
         match constellation {
             Some(Constellation::Mixed) | None => {
                 if !rem.is_empty() && rem != "DOR" {
-                    ts = TimeScale::from_str(rem.trim())?;
+                    ts = parse_time_system(rem)?;
                 }
             },
             Some(c) => {
-- 
2.43.0


From 544e138ca8bf590f30ba58cb606fd620b7ef4523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:32 +0000
Subject: [PATCH 36/80] fix: two digit year 79 is 2079, in headers and in
 records

---
 src/epoch.rs          | 2 +-
 src/header/parsing.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 8df5a34..7ebf11c 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -142,7 +142,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                 /* old RINEX problem: YY sometimes encoded on two digits */
                 if y > 79 && y <= 99 {
                     y += 1900;
-                } else if y < 79 {
+                } else if y <= 79 {
                     y += 2000;
                 }
             },
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 7de3220..136070b 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -974,9 +974,9 @@ impl Header {
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
         // handle OLD RINEX problem
-        if y >= 79 && y <= 99 {
+        if y > 79 && y <= 99 {
             y += 1900;
-        } else if y < 79 {
+        } else if y <= 79 {
             y += 2000;
         }
 
-- 
2.43.0


From b09469463fe16c2ecc4482459933027cfb3c67e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:29 +0000
Subject: [PATCH 37/80] fix: meteo sensors are written in their columns,
 without blank lines

---
 src/meteo/header.rs | 3 ++-
 src/meteo/sensor.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meteo/header.rs b/src/meteo/header.rs
index fecdf61..9d696a1 100644
--- a/src/meteo/header.rs
+++ b/src/meteo/header.rs
@@ -56,7 +56,8 @@ impl HeaderFields {
         }
 
         for sensor in self.sensors.iter() {
-            writeln!(w, "{}", sensor)?;
+            // complete lines
+            write!(w, "{}", sensor)?;
         }
 
         Ok(())
diff --git a/src/meteo/sensor.rs b/src/meteo/sensor.rs
index 71197c9..57014aa 100644
--- a/src/meteo/sensor.rs
+++ b/src/meteo/sensor.rs
@@ -133,7 +133,7 @@ impl std::fmt::Display for Sensor {
         }
 
         if let Some(accuracy) = self.accuracy {
-            write!(f, "{:^11.1}", accuracy)?
+            write!(f, "{:7.1}    ", accuracy)?
         } else {
             write!(f, "{:11}", "")?
         }
-- 
2.43.0


From a7730d6f8c81f2f04fb2389b65bcd22bbe3c7cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:36 +0000
Subject: [PATCH 38/80] fix: satellite system of written files is the standard
 letter

---
 src/header/formatting.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index 19f33da..80c4675 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -89,13 +89,21 @@ impl Header {
         Ok(())
     }
 
+    /// Satellite system, its first letter is the standard code
+    fn format_satellite_system(constellation: Constellation) -> String {
+        match constellation {
+            Constellation::GPS => "GPS".to_string(),
+            constellation => format!("{:x}", constellation),
+        }
+    }
+
     /// Formats "RINEX VERSION / TYPE"
     fn format_rinex_version<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
         let major = self.version.major;
         let minor = self.version.minor;
         match self.rinex_type {
             Type::NavigationData => match self.constellation {
-                Some(Constellation::Glonass) => {
+                Some(Constellation::Glonass) if major < 3 => {
                     writeln!(
                         w,
                         "{}",
@@ -124,8 +132,10 @@ impl Header {
                         "{}",
                         fmt_rinex(
                             &format!(
-                                "{:6}.{:02}           NAVIGATION DATA     {:X<20}",
-                                major, minor, c
+                                "{:6}.{:02}           NAVIGATION DATA     {}",
+                                major,
+                                minor,
+                                Self::format_satellite_system(c)
                             ),
                             "RINEX VERSION / TYPE"
                         )
@@ -153,8 +163,10 @@ impl Header {
                         "{}",
                         fmt_rinex(
                             &format!(
-                                "{:6}.{:02}           OBSERVATION DATA    {:x<20}",
-                                major, minor, c
+                                "{:6}.{:02}           OBSERVATION DATA    {}",
+                                major,
+                                minor,
+                                Self::format_satellite_system(c)
                             ),
                             "RINEX VERSION / TYPE"
                         )
-- 
2.43.0


From 8b8f60670c03e3e725e2c06ca90effd12d23a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 39/80] fix: navigation orbit fields are located by their
 columns (blank fields, omitted spares, trailing blanks, Galileo v4 spare)

---
 db/NAV/orbits.json                  |  4 ++--
 src/navigation/ephemeris/parsing.rs | 19 +++++++++----------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/db/NAV/orbits.json b/db/NAV/orbits.json
index 64f176e..c5609ce 100755
--- a/db/NAV/orbits.json
+++ b/db/NAV/orbits.json
@@ -364,11 +364,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
@@ -398,11 +398,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 6729d82..f805db5 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -34,23 +34,23 @@ fn parse_orbits(
 
     let fields = &nav_standards.items;
 
-    let mut key_index: usize = 0;
     let word_size: usize = 19;
     let mut map: HashMap<String, OrbitItem> = HashMap::new();
 
-    for line in lines {
+    for (row, line) in lines.enumerate() {
+        // four fields per line: a field is identified by its columns,
+        // the last ones (on every line) may be omitted
+        let mut key_index = row * 4;
+        let last_index = key_index + 4;
+
         // trim first few white spaces
         let mut line: &str = match version.major < 3 {
-            true => &line[3..],
-            false => &line[4..],
+            true => line.get(3..).unwrap_or_default(),
+            false => line.get(4..).unwrap_or_default(),
         };
 
-        let mut nb_missing = 4 - (line.len() / word_size);
-        // println!("LINE \"{}\" | NB MISSING {}", line, nb_missing); //DEBUG
-
         loop {
-            if line.is_empty() {
-                key_index += nb_missing;
+            if line.is_empty() || key_index == last_index {
                 break;
             }
 
@@ -62,7 +62,6 @@ fn parse_orbits(
             if content.is_empty() {
                 // omitted field
                 key_index += 1;
-                nb_missing = nb_missing.saturating_sub(1);
                 line = rem;
                 continue;
             }
-- 
2.43.0


From cdd40bae674a2816282fc823b3d5e1d539bdc474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 40/80] fix: RINEX 4 ionosphere, time and orientation frames
 accept 'D' exponents

---
 src/navigation/earth_orientation.rs    | 23 +++++++++++------------
 src/navigation/ionosphere/bdgim.rs     | 21 ++++++++++-----------
 src/navigation/ionosphere/klobuchar.rs | 21 ++++++++++-----------
 src/navigation/ionosphere/nequick_g.rs | 11 +++++------
 src/navigation/mod.rs                  |  5 +++++
 src/navigation/system_time.rs          | 11 +++++------
 6 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/src/navigation/earth_orientation.rs b/src/navigation/earth_orientation.rs
index b78c038..6eb56c3 100644
--- a/src/navigation/earth_orientation.rs
+++ b/src/navigation/earth_orientation.rs
@@ -2,11 +2,10 @@
 
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// Earth Orientation Message
 #[derive(Debug, Clone, Default, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -43,23 +42,23 @@ impl EarthOrientation {
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
         let x = (
-            f64::from_str(xp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dxp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddxp.trim()).unwrap_or(0.0_f64),
+            parse_f64(xp).unwrap_or(0.0_f64),
+            parse_f64(dxp).unwrap_or(0.0_f64),
+            parse_f64(ddxp).unwrap_or(0.0_f64),
         );
 
         let y = (
-            f64::from_str(yp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dyp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddyp.trim()).unwrap_or(0.0_f64),
+            parse_f64(yp).unwrap_or(0.0_f64),
+            parse_f64(dyp).unwrap_or(0.0_f64),
+            parse_f64(ddyp).unwrap_or(0.0_f64),
         );
 
-        let t_tm = f64::from_str(t_tm.trim()).unwrap_or(0.0_f64);
+        let t_tm = parse_f64(t_tm).unwrap_or(0.0_f64);
 
         let delta_ut1 = (
-            f64::from_str(dut.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddut.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dddut.trim()).unwrap_or(0.0_f64),
+            parse_f64(dut).unwrap_or(0.0_f64),
+            parse_f64(ddut).unwrap_or(0.0_f64),
+            parse_f64(dddut).unwrap_or(0.0_f64),
         );
 
         Ok((
diff --git a/src/navigation/ionosphere/bdgim.rs b/src/navigation/ionosphere/bdgim.rs
index 140726b..12c08b8 100644
--- a/src/navigation/ionosphere/bdgim.rs
+++ b/src/navigation/ionosphere/bdgim.rs
@@ -1,10 +1,9 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// BDGIM Model payload
 #[derive(Debug, Copy, Clone, Default, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -45,15 +44,15 @@ impl BdModel {
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
         let alpha = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a2.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a3.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a4.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a5.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a6.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a7.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a8.trim()).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a0).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a1).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a2).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a3).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a4).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a5).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a6).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a7).map_err(|_| ParsingError::BdgimData)?,
+            parse_f64(a8).map_err(|_| ParsingError::BdgimData)?,
         );
 
         Ok((epoch, Self { alpha }))
diff --git a/src/navigation/ionosphere/klobuchar.rs b/src/navigation/ionosphere/klobuchar.rs
index 52707aa..33cb8ac 100644
--- a/src/navigation/ionosphere/klobuchar.rs
+++ b/src/navigation/ionosphere/klobuchar.rs
@@ -1,10 +1,9 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// Klobuchar Parameters region
 #[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -68,7 +67,7 @@ impl KbModel {
         let region: KbRegionCode = match region.trim().len() {
             0 => KbRegionCode::Worldwide,
             _ => {
-                if let Ok(f) = f64::from_str(region.trim()) {
+                if let Ok(f) = parse_f64(region) {
                     let code = f as u8;
                     if code == 1 {
                         KbRegionCode::Japan
@@ -83,16 +82,16 @@ impl KbModel {
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
         let alpha = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(a0).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(a1).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(a2).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(a3).map_err(|_| ParsingError::KlobucharData)?,
         );
         let beta = (
-            f64::from_str(b0.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b1.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b2.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b3.trim()).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(b0).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(b1).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(b2).map_err(|_| ParsingError::KlobucharData)?,
+            parse_f64(b3).map_err(|_| ParsingError::KlobucharData)?,
         );
 
         Ok((
diff --git a/src/navigation/ionosphere/nequick_g.rs b/src/navigation/ionosphere/nequick_g.rs
index 8980a78..4cd5c19 100644
--- a/src/navigation/ionosphere/nequick_g.rs
+++ b/src/navigation/ionosphere/nequick_g.rs
@@ -1,12 +1,11 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
 use bitflags::bitflags;
 
-use std::str::FromStr;
-
 bitflags! {
     #[derive(Debug, Default, Clone, Copy)]
     #[derive(PartialEq, PartialOrd)]
@@ -52,11 +51,11 @@ impl NgModel {
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
         let a = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::NequickGData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::NequickGData)?,
-            f64::from_str(rem.trim()).map_err(|_| ParsingError::NequickGData)?,
+            parse_f64(a0).map_err(|_| ParsingError::NequickGData)?,
+            parse_f64(a1).map_err(|_| ParsingError::NequickGData)?,
+            parse_f64(rem).map_err(|_| ParsingError::NequickGData)?,
         );
-        let f = f64::from_str(line.trim()).map_err(|_| ParsingError::NequickGData)?;
+        let f = parse_f64(line).map_err(|_| ParsingError::NequickGData)?;
         Ok((
             epoch,
             Self {
diff --git a/src/navigation/mod.rs b/src/navigation/mod.rs
index f0e2e96..1c931be 100644
--- a/src/navigation/mod.rs
+++ b/src/navigation/mod.rs
@@ -55,5 +55,10 @@ pub struct NavKey {
     pub frmtype: NavFrameType,
 }
 
+/// Parses a number, either exponent style ('E' or 'D') being permitted.
+pub(crate) fn parse_f64(content: &str) -> Result<f64, std::num::ParseFloatError> {
+    content.trim().replace(['D', 'd'], "E").parse::<f64>()
+}
+
 /// Navigation data are [NavFrame]s indexed by [NavKey]
 pub type Record = BTreeMap<NavKey, NavFrame>;
diff --git a/src/navigation/system_time.rs b/src/navigation/system_time.rs
index e7b66a1..5d8fdce 100644
--- a/src/navigation/system_time.rs
+++ b/src/navigation/system_time.rs
@@ -1,11 +1,10 @@
 // NAV V4 System Time Messages
-use std::str::FromStr;
-
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parse_f64,
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
@@ -33,7 +32,7 @@ impl SystemTime {
         let (a0, rem) = line_2.split_at(23);
         let (a1, rem) = rem.split_at(19);
         let (a2, time) = rem.split_at(19);
-        let t_tm = f64::from_str(time.trim()).map_err(|_| ParsingError::SystemTimeData)?;
+        let t_tm = parse_f64(time).map_err(|_| ParsingError::SystemTimeData)?;
 
         Ok((
             epoch,
@@ -42,9 +41,9 @@ impl SystemTime {
                 system: system.trim().to_string(),
                 t_tm: t_tm as u32,
                 a: (
-                    f64::from_str(a0.trim()).map_err(|_| ParsingError::SystemTimeData)?,
-                    f64::from_str(a1.trim()).map_err(|_| ParsingError::SystemTimeData)?,
-                    f64::from_str(a2.trim()).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_f64(a0).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_f64(a1).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_f64(a2).map_err(|_| ParsingError::SystemTimeData)?,
                 ),
             },
         ))
-- 
2.43.0


From 167237da21a834a2b7a6f1049ccc56fc5d6c69bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 41/80] fix: meteo records: last value without line terminator,
 omitted trailing values, continuation lines and blank fields

---
 src/meteo/formatting.rs |  9 +++++++--
 src/meteo/parsing.rs    | 22 ++++++++++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/meteo/formatting.rs b/src/meteo/formatting.rs
index 5daec45..600cce5 100644
--- a/src/meteo/formatting.rs
+++ b/src/meteo/formatting.rs
@@ -27,7 +27,12 @@ pub fn format<W: Write>(
         )?;
 
         // follow header definitions
-        for observable in observables.codes.iter() {
+        for (nth, observable) in observables.codes.iter().enumerate() {
+            if nth > 7 && (nth - 8) % 10 == 0 {
+                // 8 values on first line, 10 on continuation lines
+                write!(w, "\n    ")?;
+            }
+
             let key = MeteoKey {
                 epoch,
                 observable: observable.clone(),
@@ -36,7 +41,7 @@ pub fn format<W: Write>(
             if let Some(observation) = record.get(&key) {
                 write!(w, "{:7.1}", observation)?;
             } else {
-                write!(w, "           ")?;
+                write!(w, "       ")?;
             }
         }
         write!(w, "{}", '\n')?;
diff --git a/src/meteo/parsing.rs b/src/meteo/parsing.rs
index da97c91..e437a2d 100644
--- a/src/meteo/parsing.rs
+++ b/src/meteo/parsing.rs
@@ -28,8 +28,12 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
 /// ## Input
 ///   - header: [Header] parsed previously
 ///   - content: readable content
-pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
-    let line_len = line.len();
+pub fn parse_epoch(header: &Header, content: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
+    const NUM_VALUES_FIRST_LINE: usize = 8;
+    const NUM_VALUES_NEXT_LINES: usize = 10;
+
+    let mut lines = content.lines();
+    let mut line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
     let mut ret = Vec::<(MeteoKey, f64)>::with_capacity(8);
 
     let mut offset: usize = 18; // YY
@@ -46,10 +50,20 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
 
     let codes = &header.codes;
 
+    let mut available = NUM_VALUES_FIRST_LINE;
+
     // parse all remaining fields
     for code in codes.iter() {
-        let end = (offset + 7).min(line_len - 1);
-        let slice = &line[offset..end];
+        if available == 0 {
+            // continuation line
+            line = lines.next().unwrap_or_default();
+            offset = 4;
+            available = NUM_VALUES_NEXT_LINES;
+        }
+        available -= 1;
+
+        let end = (offset + 7).min(line.len());
+        let slice = line.get(offset..end).unwrap_or_default(); // trailing fields may be omitted
         if let Ok(value) = slice.trim().parse::<f64>() {
             ret.push((
                 MeteoKey {
-- 
2.43.0


From 271010564beee335207f3ff56912f34ca57ecb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 42/80] fix: IONEX RMS maps: grid specifications were not those
 of the current line

---
 src/ionex/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ionex/parsing.rs b/src/ionex/parsing.rs
index a34f01d..6fef66a 100644
--- a/src/ionex/parsing.rs
+++ b/src/ionex/parsing.rs
@@ -173,7 +173,7 @@ pub fn parse_rms_map(
 
     for line in lines {
         if line.len() > 60 {
-            let marker = line.split_at(60).1;
+            let (content, marker) = line.split_at(60);
             if marker.contains("END OF RMS MAP") {
                 return Ok(());
             } else if marker.contains("EXPONENT") {
-- 
2.43.0


From d7d56096f7a6eb8879bdcbe80fc3cad69d02cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 43/80] fix: dates that do not exist are parsing errors, not
 panics

---
 src/antex/record.rs    | 12 ++++--------
 src/epoch.rs           |  8 +++++---
 src/hatanaka/crinex.rs |  3 ++-
 3 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index 2622f2b..daf118c 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -121,11 +121,8 @@ fn parse_datetime(content: &str) -> Result<Epoch, ParsingError> {
         .parse::<u8>()
         .map_err(|_| ParsingError::DatetimeParsing)?;
 
-    Ok(Epoch::from_gregorian_utc_at_midnight(
-        2000 + year,
-        month,
-        day,
-    ))
+    Epoch::maybe_from_gregorian_utc(2000 + year, month, day, 0, 0, 0, 0)
+        .map_err(|_| ParsingError::DatetimeParsing)
 }
 
 /*
@@ -180,9 +177,8 @@ fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
             .map_err(|_| ParsingError::DatetimeParsing)?;
     }
 
-    Ok(Epoch::from_gregorian_utc(
-        year, month, day, hh, mm, secs, nanos,
-    ))
+    Epoch::maybe_from_gregorian_utc(year, month, day, hh, mm, secs, nanos)
+        .map_err(|_| ParsingError::DatetimeParsing)
 }
 
 /// Parses entire Antenna block
diff --git a/src/epoch.rs b/src/epoch.rs
index 7ebf11c..c3112f3 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -196,7 +196,8 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
             if y == 0 {
                 return Err(ParsingError::EpochFormat);
             }
-            let epoch = Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, ns as u32);
+            let epoch = Epoch::maybe_from_gregorian_utc(y, m, d, hh, mm, ss, ns as u32)
+                .map_err(|_| ParsingError::EpochParsing)?;
             Ok(epoch)
         },
         TimeScale::TAI => {
@@ -204,7 +205,8 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
             if y == 0 {
                 return Err(ParsingError::EpochFormat);
             }
-            let epoch = Epoch::from_gregorian_tai(y, m, d, hh, mm, ss, ns as u32);
+            let epoch = Epoch::maybe_from_gregorian_tai(y, m, d, hh, mm, ss, ns as u32)
+                .map_err(|_| ParsingError::EpochParsing)?;
             Ok(epoch)
         },
         ts => {
@@ -268,7 +270,7 @@ pub(crate) fn parse_ionex_utc(s: &str) -> Result<Epoch, ParsingError> {
             _ => {},
         }
     }
-    Ok(Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, 0))
+    Epoch::maybe_from_gregorian_utc(y, m, d, hh, mm, ss, 0).map_err(|_| ParsingError::EpochParsing)
 }
 
 /*
diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index 9010148..d31a138 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -153,7 +153,8 @@ impl CRINEX {
             return Err(ParsingError::DatetimeFormat);
         }
 
-        let epoch = Epoch::from_gregorian_utc(year, month, day, hour, mins, 0, 0);
+        let epoch = Epoch::maybe_from_gregorian_utc(year, month, day, hour, mins, 0, 0)
+            .map_err(|_| ParsingError::DatetimeParsing)?;
         let s = self.with_prog(prog.trim());
         let s = s.with_date(epoch);
         Ok(s)
-- 
2.43.0


From 22d3fb5859acbc55c4a6411a1b4f31838b92e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 44/80] fix: ANTEX validity period: fraction of seconds was
 read at a wrong scale

---
 src/antex/record.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index daf118c..0051656 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -167,10 +167,19 @@ fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        nanos = ss[dot + 1..]
-            .trim()
-            .parse::<u32>()
-            .map_err(|_| ParsingError::DatetimeParsing)?;
+        let decimals = ss[dot + 1..].trim();
+
+        if decimals.len() > 9 {
+            return Err(ParsingError::DatetimeParsing);
+        }
+
+        if !decimals.is_empty() {
+            nanos = decimals
+                .parse::<u32>()
+                .map_err(|_| ParsingError::DatetimeParsing)?;
+
+            nanos *= 10_u32.pow(9 - decimals.len() as u32);
+        }
     } else {
         secs = ss
             .parse::<u8>()
-- 
2.43.0


From 5bbaec634cfc09b990bfff08bbd268ad5a0b3126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 45/80] fix: ANTEX G1a and G2a frequencies overwrote G1

---
 src/carrier.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carrier.rs b/src/carrier.rs
index 55d59f4..f4d4515 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -687,6 +687,8 @@ impl Carrier {
                 1 => Ok(Self::G1(None)),
                 2 => Ok(Self::G2(None)),
                 3 => Ok(Self::G3),
+                4 => Ok(Self::G1a),
+                6 => Ok(Self::G2a),
                 _ => Ok(Self::G1(None)),
             },
             Constellation::Galileo => match sv.prn {
-- 
2.43.0


From eed93a94d5f6b2427425fe03db76488079f0499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 46/80] fix: malformed ANTEX antennas are skipped, not panics

---
 src/antex/record.rs   | 6 +++++-
 src/record/parsing.rs | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index 0051656..7027e99 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -203,6 +203,10 @@ pub(crate) fn parse_antenna(
     let mut valid_from = Epoch::default();
 
     for line in lines {
+        if line.len() < 60 {
+            continue;
+        }
+
         let (content, marker) = line.split_at(60);
         if marker.contains("TYPE / SERIAL NO") {
             let (ant_igs, rem) = content.split_at(16); // IGS V.1.4 does not follow the specs ?
@@ -239,7 +243,7 @@ pub(crate) fn parse_antenna(
             let (date, _) = rem.split_at(10);
 
             let cal = Calibration {
-                method: CalibrationMethod::from_str(method.trim()).unwrap(),
+                method: CalibrationMethod::from_str(method.trim()).unwrap_or_default(),
                 number: number
                     .trim()
                     .parse::<u16>()
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 84b5e9d..cb16f2d 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -346,8 +346,9 @@ impl Record {
                         },
 
                         Type::AntennaData => {
-                            let (antenna, content) = parse_antex_antenna(&epoch_buf).unwrap();
-                            atx_rec.push((antenna, content));
+                            if let Ok((antenna, content)) = parse_antex_antenna(&epoch_buf) {
+                                atx_rec.push((antenna, content));
+                            }
                         },
 
                         Type::IonosphereMaps => {
-- 
2.43.0


From 8e9bc12b7447cc058db87334b2b94e43d735c553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 47/80] fix: DORIS epochs were never read: columns of the epoch
 line, observation fields and station numbers

---
 src/doris/parsing.rs | 164 +++++++++++++++++++------------------------
 1 file changed, 71 insertions(+), 93 deletions(-)

diff --git a/src/doris/parsing.rs b/src/doris/parsing.rs
index 34b50c3..68ac13f 100644
--- a/src/doris/parsing.rs
+++ b/src/doris/parsing.rs
@@ -6,69 +6,60 @@ use crate::{
     prelude::{Header, Observable, ParsingError, TimeScale},
 };
 
+/// Number of observations per line
+const NUM_OBS_PER_LINE: usize = 5;
+
 /// Returns true if forwarded content does match new DORIS measurement.
 pub fn is_new_epoch(line: &str) -> bool {
     line.starts_with('>')
 }
 
+/// Parses one line of observations: up to 5 fields (value, m1 and m2 flags),
+/// for the [Observable]s starting at obs_ptr
 fn parse_observations(
     line: &str,
-    mut obs_ptr: usize,
+    obs_ptr: usize,
     station: &Station,
     observables: &[Observable],
-    numobs: usize,
     observations: &mut Observations,
-) -> Result<(), ParsingError> {
+) {
     const OBSERVABLE_WIDTH: usize = 14;
-
-    let mut offset = 0;
-    let line_len = line.len();
-
-    loop {
-        let mut m1 = Option::<u8>::None;
-        let mut m2 = Option::<u8>::None;
-
-        if offset + OBSERVABLE_WIDTH + 1 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH..offset + OBSERVABLE_WIDTH + 1];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m1 = Some(flag);
-            }
-        }
-
-        if offset + OBSERVABLE_WIDTH + 2 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH + 1..offset + OBSERVABLE_WIDTH + 2];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m2 = Some(flag);
-            }
-        }
-
-        if offset + OBSERVABLE_WIDTH < line_len {
-            let slice = &line[offset..offset + OBSERVABLE_WIDTH];
-            println!("slice: \"{}\"", slice);
-            if let Ok(value) = slice.trim().parse::<f64>() {
-                let key = SignalKey {
-                    station: station.clone(),
-                    observable: observables[obs_ptr].clone(),
-                };
-
-                observations
-                    .signals
-                    .insert(key, SignalObservation { m1, m2, value });
-            }
-        }
-
-        offset += OBSERVABLE_WIDTH;
-        obs_ptr += 1;
-
-        if obs_ptr == numobs {
-            // abnormal content: abort and avoid overflowing
-            break;
+    const FIELD_WIDTH: usize = OBSERVABLE_WIDTH + 2;
+
+    for (nth, observable) in observables
+        .iter()
+        .skip(obs_ptr)
+        .take(NUM_OBS_PER_LINE)
+        .enumerate()
+    {
+        let offset = nth * FIELD_WIDTH;
+
+        let value = match line.get(offset..offset + OBSERVABLE_WIDTH) {
+            Some(slice) => slice,
+            None => break, // trailing fields omitted
+        };
+
+        let offset = offset + OBSERVABLE_WIDTH;
+
+        let m1 = line
+            .get(offset..offset + 1)
+            .and_then(|slice| slice.parse::<u8>().ok());
+
+        let m2 = line
+            .get(offset + 1..offset + 2)
+            .and_then(|slice| slice.parse::<u8>().ok());
+
+        if let Ok(value) = value.trim().parse::<f64>() {
+            let key = SignalKey {
+                station: station.clone(),
+                observable: observable.clone(),
+            };
+
+            observations
+                .signals
+                .insert(key, SignalObservation { m1, m2, value });
         }
     }
-
-    Ok(())
 }
 
 /// Parse all DORIS measurements from forwarded content.
@@ -77,15 +68,12 @@ pub fn parse_epoch(
     header: &Header,
     content: &str,
 ) -> Result<(DorisKey, Observations), ParsingError> {
-    const EPOCH_SIZE: usize = "YYYY MM DD HH MM SS.NNNNNNNNN  0".len();
-    const CLOCK_OFFSET: usize = 26;
-    const CLOCK_SIZE: usize = 14;
-    const MIN_EPOCH_SIZE: usize = EPOCH_SIZE + CLOCK_SIZE + 2;
+    // > YYYY MM DD HH MM SS.NNNNNNNNN  F NNN      CC.CCCCCCCCC X
+    const DATE: std::ops::Range<usize> = 2..31;
+    const FLAG: std::ops::Range<usize> = 31..34;
+    const CLOCK: std::ops::Range<usize> = 43..56;
 
     let mut obs_ptr = 0;
-    let flag = EpochFlag::default();
-
-    let null_clock = ClockObservation::default();
 
     let mut station = Option::<Station>::None;
     let mut observations = Observations::default();
@@ -98,66 +86,56 @@ pub fn parse_epoch(
         .ok_or(ParsingError::MissingObservableDefinition)?;
 
     let observables = &doris.observables;
-    let numobs = observables.len();
-
     let stations = &doris.stations;
 
-    // parse TAI timestamp
+    // parse timestamp
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
-    let line_len = line.len();
 
-    if line_len < MIN_EPOCH_SIZE {
-        return Err(ParsingError::EpochFormat);
-    }
+    let date = line.get(DATE).ok_or(ParsingError::EpochFormat)?;
+    let epoch = parse_epoch_in_timescale(date, TimeScale::TAI)?;
 
-    let epoch = parse_epoch_in_timescale(&line[2..2 + EPOCH_SIZE], TimeScale::TAI)?;
+    let flag = line.get(FLAG).ok_or(ParsingError::EpochFormat)?;
+    let flag = flag.trim().parse::<EpochFlag>()?;
 
     let key = DorisKey { epoch, flag };
 
-    // parse clock field
-    let offset_s = line[CLOCK_OFFSET..CLOCK_OFFSET + CLOCK_SIZE]
+    // parse clock offset
+    let offset_s = line
+        .get(CLOCK)
+        .ok_or(ParsingError::EpochFormat)?
         .trim()
         .parse::<f64>()
         .map_err(|_| ParsingError::DorisClockParsing)?;
 
-    observations.clock = ClockObservation::with_offset_s(&null_clock, epoch, offset_s);
+    observations.clock = ClockObservation::default().with_offset_s(epoch, offset_s);
 
-    // clock extrapolated ?
-    observations.clock_extrapolated = false;
+    // clock extrapolation flag
+    observations.clock_extrapolated = match line.get(CLOCK.end..) {
+        Some(flag) => flag.trim().eq("1"),
+        None => false,
+    };
 
-    if line_len > CLOCK_OFFSET + CLOCK_SIZE {
-        if line[CLOCK_OFFSET + CLOCK_SIZE..].trim().eq("1") {
-            observations.clock_extrapolated = true;
-        }
-    }
-
-    // parse following stations
+    // parse all following stations
     for line in lines {
+        // 1st line of a new station
         if line.starts_with('D') {
             obs_ptr = 0;
 
-            // station number
-            let station_num = line[1..]
+            let station_num = line
+                .get(1..3)
+                .ok_or(ParsingError::DorisStationFormat)?
                 .trim()
-                .parse::<usize>()
+                .parse::<u16>()
                 .map_err(|_| ParsingError::DorisStationFormat)?;
 
-            // identify station
-            if let Some(s) = stations.get(station_num) {
-                station = Some(s.clone());
-            }
+            station = stations.iter().find(|s| s.key == station_num).cloned();
         }
 
-        if let Some(station) = &station {
-            parse_observations(
-                &line[4..],
-                obs_ptr,
-                &station,
-                observables,
-                numobs,
-                &mut observations,
-            )?;
+        if let (Some(station), Some(content)) = (&station, line.get(3..)) {
+            parse_observations(content, obs_ptr, station, observables, &mut observations);
         }
+
+        obs_ptr += NUM_OBS_PER_LINE;
     }
 
     Ok((key, observations))
-- 
2.43.0


From cfb1bc9988f7fb765ece6968af5d5ce112c1b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 48/80] fix: DORIS records are written in the format's columns

---
 src/doris/formatting.rs | 87 ++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 49 deletions(-)

diff --git a/src/doris/formatting.rs b/src/doris/formatting.rs
index 2eba16d..7d954f1 100644
--- a/src/doris/formatting.rs
+++ b/src/doris/formatting.rs
@@ -1,7 +1,7 @@
 use crate::{
-    doris::{ClockObservation, DorisKey, Record},
+    doris::{ClockObservation, DorisKey, Record, SignalKey},
     epoch::epoch_decompose as epoch_decomposition,
-    prelude::{FormattingError, Header},
+    prelude::{FormattingError, Header, TimeScale},
 };
 
 use std::io::{BufWriter, Write};
@@ -9,24 +9,17 @@ use std::io::{BufWriter, Write};
 fn format_epoch<W: Write>(
     w: &mut BufWriter<W>,
     k: &DorisKey,
+    num_stations: usize,
     clock_extrapolated: bool,
     clock: &ClockObservation,
 ) -> Result<(), FormattingError> {
-    let (y, m, d, hh, mm, ss, nanos) = epoch_decomposition(k.epoch);
+    let (y, m, d, hh, mm, ss, nanos) =
+        epoch_decomposition(k.epoch.to_time_scale(TimeScale::TAI));
 
-    write!(
+    writeln!(
         w,
-        "> {:04} {:02} {:02} {:02} {:02} {:02}.{:07} {:3} {:3} {:14.3}",
-        y,
-        m,
-        d,
-        hh,
-        mm,
-        ss,
-        nanos / 100,
-        clock_extrapolated,
-        k.flag,
-        clock.offset_s,
+        "> {:04} {:02} {:02} {:02} {:02} {:02}.{:09}  {} {:2}      {:13.9} {}",
+        y, m, d, hh, mm, ss, nanos, k.flag, num_stations, clock.offset_s, clock_extrapolated as u8,
     )?;
 
     Ok(())
@@ -38,57 +31,53 @@ pub fn format<W: Write>(
     header: &Header,
 ) -> Result<(), FormattingError> {
     const NUM_OBS_PER_LINE: usize = 5;
-    const OBSERVATIONS_BLANK: &str = "              ";
+    const OBSERVATION_BLANK: &str = "                ";
 
     let header = header
         .doris
         .as_ref()
         .ok_or(FormattingError::UndefinedObservables)?;
 
-    let _stations = &header.stations;
-
     for (k, v) in record.iter() {
-        format_epoch(w, &k, v.clock_extrapolated, &v.clock)?;
+        // only stations in sight
+        let stations = header
+            .stations
+            .iter()
+            .filter(|station| v.signals.keys().any(|k| &k.station == *station))
+            .collect::<Vec<_>>();
 
-        for station in header.stations.iter() {
-            let mut modulo = 0;
+        format_epoch(w, &k, stations.len(), v.clock_extrapolated, &v.clock)?;
 
-            // following header specs
-            for (nth, obs) in header.observables.iter().enumerate() {
+        for station in stations.iter() {
+            // by chunk of 5 observations, following header specs
+            for (nth, observables) in header.observables.chunks(NUM_OBS_PER_LINE).enumerate() {
                 if nth == 0 {
                     write!(w, "D{:02}", station.key)?;
+                } else {
+                    write!(w, "   ")?;
                 }
 
-                if let Some((_, signal)) = v
-                    .signals
-                    .iter()
-                    .filter(|(k, _)| &k.station == station && &k.observable == obs)
-                    .reduce(|k, _| k)
-                {
-                    write!(w, "{:14.3}", signal.value)?;
-                    if let Some(flag) = signal.m1 {
-                        write!(w, "{}", flag)?;
-                    } else {
-                        write!(w, "{}", ' ')?;
-                    }
-                    if let Some(flag) = signal.m2 {
-                        write!(w, "{}", flag)?;
+                for observable in observables.iter() {
+                    let key = SignalKey {
+                        station: (*station).clone(),
+                        observable: observable.clone(),
+                    };
+
+                    if let Some(signal) = v.signals.get(&key) {
+                        write!(w, "{:14.3}", signal.value)?;
+
+                        for flag in [signal.m1, signal.m2] {
+                            match flag {
+                                Some(flag) => write!(w, "{}", flag)?,
+                                None => write!(w, " ")?,
+                            }
+                        }
                     } else {
-                        write!(w, "{}", ' ')?;
+                        write!(w, "{}", OBSERVATION_BLANK)?;
                     }
-                } else {
-                    write!(w, "{}", OBSERVATIONS_BLANK)?;
-                }
-
-                if (nth % NUM_OBS_PER_LINE) == NUM_OBS_PER_LINE - 1 {
-                    write!(w, "{}   \n", ' ')?;
                 }
 
-                modulo = nth % NUM_OBS_PER_LINE;
-            }
-
-            if modulo != NUM_OBS_PER_LINE - 1 {
-                write!(w, "{}", '\n')?;
+                writeln!(w)?;
             }
         }
     }
-- 
2.43.0


From c89a26bc7c5ef51387ada8fb8693b5b63e59f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 49/80] fix: comments of the record section were dropped

---
 src/record/parsing.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index cb16f2d..4ac02ff 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -230,16 +230,6 @@ impl Record {
                 continue;
             }
 
-            // (special case) COMMENTS: store as is
-            if line_buf.contains("COMMENT") {
-                let content = line_buf.split_at(60).0.trim();
-                if let Some(comments) = comments.get_mut(&comment_ts) {
-                    comments.push(content.to_string());
-                } else {
-                    comments.insert(comment_ts, vec![content.to_string()]);
-                }
-            }
-
             // CRINEX special case:
             // - apply decompression algorithm prior moving forward
             // - decompress new pending line, which may recover several lines (in old V1 format)
@@ -399,6 +389,14 @@ impl Record {
 
             // clear on new epoch detection
             if new_epoch {
+                // store comments encountered since last epoch
+                if !comment_content.is_empty() {
+                    comments
+                        .entry(comment_ts)
+                        .or_default()
+                        .append(&mut comment_content);
+                }
+
                 epoch_buf.clear();
             }
 
-- 
2.43.0


From 9b381fa2c90bd26ca3b2793370cca977ac44ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 50/80] fix: quantization of non finite or tiny values did not
 terminate

---
 src/ionex/quantized.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ionex/quantized.rs b/src/ionex/quantized.rs
index 5c67cec..ca7fb4f 100644
--- a/src/ionex/quantized.rs
+++ b/src/ionex/quantized.rs
@@ -16,7 +16,8 @@ impl Quantized {
         let mut val = value;
         let mut exponent = 0;
 
-        while val.fract() != 0.0 {
+        // non finite values have no exponent, and 10^18 is the limit of the quantization
+        while val.is_finite() && val.fract() != 0.0 && exponent < 18 {
             val *= 10.0;
             exponent += 1;
         }
-- 
2.43.0


From a6db55c021a364443b739a0379c4dc44ab8da66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 51/80] fix: IONEX grids that do not start at a multiple of
 their end were refused

---
 src/linspace.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/linspace.rs b/src/linspace.rs
index ecc4f7b..2805f65 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -1,5 +1,3 @@
-use std::ops::Rem;
-
 use crate::prelude::ParsingError;
 
 /// Linear space as used in IONEX or Antenna grid definitions.
@@ -25,20 +23,18 @@ impl Linspace {
                 spacing,
             })
         } else {
-            let r = end.rem(start);
             /*
-             * End / Start must be multiple of one another
+             * End must be reached in a whole number of steps
              */
-            if r == 0.0 {
-                if end.rem(spacing) == 0.0 {
-                    Ok(Self {
-                        start,
-                        end,
-                        spacing,
-                    })
-                } else {
-                    Err(ParsingError::BadIonexGridSpecs)
-                }
+            let steps = (end - start) / spacing;
+            let is_whole = (steps - steps.round()).abs() < 1.0E-6;
+
+            if spacing.is_finite() && is_whole {
+                Ok(Self {
+                    start,
+                    end,
+                    spacing,
+                })
             } else {
                 Err(ParsingError::BadIonexGridSpecs)
             }
-- 
2.43.0


From 9f29a0e43664a12306091c7d50fe69a00a83fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 52/80] fix: IONEX grids are read from their columns, and their
 first node sets the resolution too

---
 src/header/parsing.rs | 26 +++++++++-----------------
 src/record/parsing.rs | 12 +++++++++---
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 136070b..1a3be35 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -1048,24 +1048,16 @@ impl Header {
      * Parse IONEX grid
      */
     fn parse_grid(line: &str) -> Result<Linspace, ParsingError> {
-        let mut start = 0.0_f64;
-        let mut end = 0.0_f64;
-        let mut spacing = 0.0_f64;
-        for (index, item) in line.split_ascii_whitespace().enumerate() {
-            let item = item.trim();
-            match index {
-                0 => {
-                    start = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                1 => {
-                    end = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                2 => {
-                    spacing = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                _ => {},
+        // 2X,3F6.1: values may fill their columns
+        let field = |start: usize| {
+            match line.get(start..start + 6).unwrap_or("").trim() {
+                "" => Ok(0.0_f64),
+                item => f64::from_str(item).or(Err(ParsingError::IonexGridSpecs)),
             }
-        }
+        };
+
+        let (start, end, spacing) = (field(2)?, field(8)?, field(14)?);
+
         if spacing == 0.0 {
             // avoid linspace verification in this case
             Ok(Linspace {
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 4ac02ff..1f19eb9 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -23,6 +23,7 @@ use crate::{
         Record as IonexRecord,
     },
     is_rinex_comment,
+    linspace::Linspace,
     meteo::{
         is_new_epoch as is_new_meteo_epoch, parse_epoch as parse_meteo_epoch, Record as MeteoRecord,
     },
@@ -179,9 +180,14 @@ impl Record {
 
         if let Some(ionex) = &header.ionex {
             ionex_tec_exponent = ionex.exponent;
-            ionex_lat_exponent = IonexQuantized::find_exponent(ionex.grid.latitude.spacing);
-            ionex_long_exponent = IonexQuantized::find_exponent(ionex.grid.longitude.spacing);
-            ionex_alt_exponent = IonexQuantized::find_exponent(ionex.grid.height.spacing);
+            let grid_exponent = |grid: &Linspace| {
+                IonexQuantized::find_exponent(grid.spacing)
+                    .max(IonexQuantized::find_exponent(grid.start))
+            };
+
+            ionex_lat_exponent = grid_exponent(&ionex.grid.latitude);
+            ionex_long_exponent = grid_exponent(&ionex.grid.longitude);
+            ionex_alt_exponent = grid_exponent(&ionex.grid.height);
         }
 
         // Iterate and consume, one line at a time
-- 
2.43.0


From 130a4880b738966faa9cb5ec7c76f13b2d6430d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 53/80] fix: the radome code was taken for the beginning of the
 antenna serial number

---
 src/antex/record.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index 7027e99..ea1bde6 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -210,7 +210,8 @@ pub(crate) fn parse_antenna(
         let (content, marker) = line.split_at(60);
         if marker.contains("TYPE / SERIAL NO") {
             let (ant_igs, rem) = content.split_at(16); // IGS V.1.4 does not follow the specs ?
-            let (block1, rem) = rem.split_at(20 + 4);
+            let (_radome, rem) = rem.split_at(4);
+            let (block1, rem) = rem.split_at(20);
             let (block2, rem) = rem.split_at(10);
             let (block3, _rem) = rem.split_at(10);
 
-- 
2.43.0


From f02a4d567588d415409cef15b90bebffa66e9ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 54/80] fix: the azimuth increment of ANTEX antennas was not
 read

---
 src/antex/record.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index ea1bde6..76180cd 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -266,10 +266,9 @@ pub(crate) fn parse_antenna(
 
             antenna.sinex_code = sinex.trim().to_string();
         } else if marker.contains("DAZI") {
-            //let dazi = content.split_at(20).0.trim();
-            //if let Ok(dazi) = f64::from_str(dazi) {
-            //    antenna = antenna.with_dazi(dazi)
-            //}
+            if let Ok(dazi) = content.split_at(20).0.trim().parse::<f64>() {
+                antenna = antenna.with_dazi(dazi)
+            }
         } else if marker.contains("# OF FREQUENCIES") {
             /*
              * we actually do not care about this field
-- 
2.43.0


From 8888665e3ef90ff2f01a0d015f624fe2e12872f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 55/80] fix: the beginning of an ANTEX validity period without
 end was dropped

---
 src/antex/record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index 76180cd..1a4ac35 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -257,6 +257,10 @@ pub(crate) fn parse_antenna(
             antenna.calibration = cal.clone();
         } else if marker.contains("VALID FROM") {
             valid_from = parse_validity_epoch(content.trim())?;
+
+            // still valid, unless VALID UNTIL says otherwise
+            let valid_until = Epoch::from_gregorian_utc_at_midnight(9999, 12, 31);
+            antenna = antenna.with_validity_period(valid_from, valid_until);
         } else if marker.contains("VALID UNTIL") {
             let valid_until = parse_validity_epoch(content.trim())?;
 
-- 
2.43.0


From 2dc3b80bd02def5233b350fd4d58dcb4c68fe18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:52 +0000
Subject: [PATCH 56/80] fix: the system named by TIME OF FIRST OBS is the one
 observation dates are read in

---
 src/record/parsing.rs | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 1f19eb9..d5862b7 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -123,27 +123,17 @@ impl Record {
         let mut obs_ts = TimeScale::default();
 
         if let Some(obs) = &header.obs {
-            match header.constellation {
-                Some(Constellation::Mixed) | None => {
-                    if let Some(t) = obs.timeof_first_obs {
-                        obs_ts = t.time_scale;
-                    } else {
-                        if let Some(t) = obs.timeof_first_obs {
-                            obs_ts = t.time_scale;
-                        } else {
-                            let t = obs
-                                .timeof_last_obs
-                                .ok_or(ParsingError::BadObsBadTimescaleDefinition)?;
-                            obs_ts = t.time_scale;
-                        }
-                    }
-                },
-                Some(constellation) => {
-                    obs_ts = constellation
-                        .timescale()
-                        .ok_or(ParsingError::BadObsBadTimescaleDefinition)?;
-                },
-            }
+            obs_ts = if let Some(t) = obs.timeof_first_obs {
+                t.time_scale
+            } else if let Some(t) = obs.timeof_last_obs {
+                t.time_scale
+            } else {
+                match header.constellation {
+                    Some(Constellation::Mixed) | None => None,
+                    Some(constellation) => constellation.timescale(),
+                }
+                .ok_or(ParsingError::BadObsBadTimescaleDefinition)?
+            };
         }
 
         // Clock RINEX TimeScale definition.
-- 
2.43.0


From 51badd76f81608ea8d27b0489a0dba0945a6d14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 57/80] fix: combine signals of the same epoch only
 (combinations, multipath, TEC)

---
 src/observation/rinex/feature.rs | 216 +++++++++++++------------------
 src/observation/rinex/tec.rs     |  43 ++----
 2 files changed, 103 insertions(+), 156 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 0e659ba..73d5cef 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -259,48 +259,50 @@ impl Rinex {
         let mut ret = BTreeMap::new();
 
         if combination == Combination::MelbourneWubbena {
-            for ((k_1, v_1), (_, v_2)) in self
+            // narrow lane code combinations, per epoch, satellite and signal
+            let narrow_lane = self
+                .signals_combination(Combination::NarrowLane)
+                .into_iter()
+                .filter(|(k, _)| k.reference.is_pseudo_range_observable())
+                .filter_map(|(k, v)| Some(((k.epoch, k.flag, k.sv, k.lhs.code()?), v)))
+                .collect::<HashMap<_, _>>();
+
+            for (k_1, v_1) in self
                 .signals_combination(Combination::WideLane)
-                .iter()
+                .into_iter()
                 .filter(|(k, _)| k.reference.is_phase_range_observable())
-                .zip(
-                    self.signals_combination(Combination::NarrowLane)
-                        .iter()
-                        .filter(|(k, _)| k.reference.is_pseudo_range_observable()),
-                )
-                .filter_map(|((k_1, v_1), (k_2, v_2))| {
-                    let lhs_1_code = k_1.lhs.code()?;
-                    let lhs_2_code = k_2.lhs.code()?;
-                    if lhs_1_code == lhs_2_code {
-                        Some(((k_1, v_1), (k_2, v_2)))
-                    } else {
-                        None
-                    }
-                })
             {
-                let key = CombinationKey {
-                    epoch: k_1.epoch,
-                    flag: k_1.flag,
-                    sv: k_1.sv,
-                    lhs: k_1.lhs.clone(),
-                    reference: k_1.reference.clone(),
-                };
-                ret.insert(key, v_1 - v_2);
+                if let Some(code) = k_1.lhs.code() {
+                    if let Some(v_2) = narrow_lane.get(&(k_1.epoch, k_1.flag, k_1.sv, code)) {
+                        ret.insert(k_1, v_1 - v_2);
+                    }
+                }
             }
         } else {
-            let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-                dt
-            } else {
-                if let Some(dt) = self.dominant_sampling_interval() {
-                    dt
-                } else {
-                    // can't proceed without sampling interval guess.
-                    return ret;
+            // pivot observations, per epoch and satellite
+            let mut pr_ref_value = HashMap::<(ObsKey, SV), (Observable, f64, f64, f64)>::new();
+            let mut phase_ref_value = HashMap::<(ObsKey, SV), (Observable, f64, f64, f64)>::new();
+
+            for (k, v) in self.signal_observations_iter() {
+                if !v.observable.is_l1_pivot(v.sv.constellation) {
+                    continue;
                 }
-            };
 
-            let mut pr_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
-            let mut phase_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
+                if let Ok(carrier) = v.observable.carrier(v.sv.constellation) {
+                    let pivot = (
+                        v.observable.clone(),
+                        carrier.frequency(),
+                        carrier.wavelength(),
+                        v.value,
+                    );
+
+                    if v.observable.is_phase_range_observable() {
+                        phase_ref_value.insert((k, v.sv), pivot);
+                    } else {
+                        pr_ref_value.insert((k, v.sv), pivot);
+                    }
+                }
+            }
 
             for (k, v) in self.signal_observations_iter() {
                 let is_phase_range = v.observable.is_phase_range_observable();
@@ -321,29 +323,15 @@ impl Rinex {
                 let freq = carrier.frequency();
                 let lambda = carrier.wavelength();
 
-                if is_l1_pivot {
-                    if is_phase_range {
-                        phase_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
-                    } else {
-                        pr_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
-                    };
-                } else {
+                if !is_l1_pivot {
                     let reference = if is_phase_range {
                         &phase_ref_value
                     } else {
                         &pr_ref_value
                     };
 
-                    if let Some((last_seen, reference, f_1, w_1, ref_value)) = reference.get(&v.sv)
-                    {
-                        if k.epoch - *last_seen > dominant_sampling {
-                            // avoid moving forward on data gaps
-                            // guards against substraction (a - b) from two different epochs
-                            continue;
-                        }
-
+                    // combine signals of this very epoch only
+                    if let Some((reference, f_1, w_1, ref_value)) = reference.get(&(k, v.sv)) {
                         let alpha = match combination {
                             Combination::GeometryFree => 1.0,
                             Combination::IonosphereFree => f_1.powi(2),
@@ -416,98 +404,72 @@ impl Rinex {
     pub fn signals_multipath(&self) -> HashMap<MultipathKey, f64> {
         let mut ret = HashMap::new();
 
-        let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-            dt
-        } else {
-            if let Some(dt) = self.dominant_sampling_interval() {
-                dt
-            } else {
-                // can't proceed without sampling interval guess.
-                return ret;
-            }
-        };
+        // signals are only combined with other signals of the same epoch
+        for (k, observations) in self.observations_iter() {
+            // stores all encountered pseudo range
+            let mut rho = HashMap::<(SV, Observable), f64>::new();
+            // stores all encountered phase range
+            let mut phi = HashMap::<(SV, Observable), (f64, f64)>::new();
 
-        let mut t = Epoch::default();
+            for v in observations.signals.iter() {
+                let is_ph = v.observable.is_phase_range_observable();
+                let is_pr = v.observable.is_pseudo_range_observable();
+                let carrier = v.observable.carrier(v.sv.constellation);
 
-        // stores all encountered pseudo range
-        let mut rho = HashMap::<(SV, Observable), f64>::new();
-        // stores all encountered phase range
-        let mut phi = HashMap::<(SV, Observable), (f64, f64)>::new();
+                if !is_ph && !is_pr || carrier.is_err() {
+                    continue;
+                }
 
-        for (k, v) in self.signal_observations_iter() {
-            let is_ph = v.observable.is_phase_range_observable();
-            let is_pr = v.observable.is_pseudo_range_observable();
-            let carrier = v.observable.carrier(v.sv.constellation);
+                let carrier = carrier.unwrap();
+                let freq = carrier.frequency().powi(2);
+                let lambda = carrier.wavelength();
 
-            if !is_ph && !is_pr || carrier.is_err() {
-                continue;
+                if is_pr {
+                    rho.insert((v.sv, v.observable.clone()), v.value);
+                } else {
+                    phi.insert((v.sv, v.observable.clone()), (freq, v.value * lambda));
+                }
             }
 
-            let carrier = carrier.unwrap();
-            let freq = carrier.frequency().powi(2);
-            let lambda = carrier.wavelength();
+            for ((phi_sv, phi_obs), (freq, phi_value)) in phi.iter() {
+                let phi_code = phi_obs.code();
+                if phi_code.is_none() {
+                    continue;
+                }
 
-            if k.epoch - t > dominant_sampling {
-                // data gap
-                rho.clear();
-                phi.clear();
-            }
+                let phi_code = phi_code.unwrap();
 
-            if k.epoch - t == dominant_sampling {
-                // new epoch
-                // try to compute from previously stored data, then reset
-                for ((phi_sv, phi_obs), (freq, phi_value)) in phi.iter() {
-                    let phi_code = phi_obs.code();
-                    if phi_code.is_none() {
+                // locate associated pr
+                for ((rho_sv, rho_obs), rho) in rho.iter() {
+                    let rho_code = rho_obs.code();
+                    if rho_code.is_none() {
                         continue;
                     }
 
-                    let phi_code = phi_code.unwrap();
-
-                    // locate associated pr
-                    for ((rho_sv, rho_obs), rho) in rho.iter() {
-                        let rho_code = rho_obs.code();
-                        if rho_code.is_none() {
-                            continue;
-                        }
-
-                        let rho_code = rho_code.unwrap();
-
-                        // same modulation / signal as reference phase
-                        if rho_code == phi_code && rho_sv == phi_sv {
-                            // now compute for any different l_j phase
-                            for ((phi_sv_j, phi_obs_j), (freq_j, phi_j)) in phi.iter() {
-                                if phi_sv_j == phi_sv {
-                                    if phi_obs_j != phi_obs {
-                                        let key = MultipathKey {
-                                            epoch: t,
-                                            sv: *phi_sv,
-                                            signal: phi_obs.clone(),
-                                            rhs: phi_obs_j.clone(),
-                                        };
-                                        let value = rho
-                                            - phi_value
-                                            - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_j);
-                                        ret.insert(key, value);
-                                    }
+                    let rho_code = rho_code.unwrap();
+
+                    // same modulation / signal as reference phase
+                    if rho_code == phi_code && rho_sv == phi_sv {
+                        // now compute for any different l_j phase
+                        for ((phi_sv_j, phi_obs_j), (freq_j, phi_j)) in phi.iter() {
+                            if phi_sv_j == phi_sv {
+                                if phi_obs_j != phi_obs {
+                                    let key = MultipathKey {
+                                        epoch: k.epoch,
+                                        sv: *phi_sv,
+                                        signal: phi_obs.clone(),
+                                        rhs: phi_obs_j.clone(),
+                                    };
+                                    let value = rho
+                                        - phi_value
+                                        - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_j);
+                                    ret.insert(key, value);
                                 }
                             }
                         }
                     }
                 }
-                //reset
-                rho.clear();
-                phi.clear();
             }
-
-            // store value
-            if is_pr {
-                rho.insert((v.sv, v.observable.clone()), v.value);
-            } else {
-                phi.insert((v.sv, v.observable.clone()), (freq, v.value * lambda));
-            }
-
-            t = k.epoch;
         }
         ret
     }
diff --git a/src/observation/rinex/tec.rs b/src/observation/rinex/tec.rs
index 00a504b..43fef3f 100644
--- a/src/observation/rinex/tec.rs
+++ b/src/observation/rinex/tec.rs
@@ -1,6 +1,5 @@
 use crate::{
     ionex::TEC,
-    observation::SignalObservation,
     prelude::{Epoch, Observable, Rinex, SV},
 };
 
@@ -26,39 +25,25 @@ impl Rinex {
     /// this limits the method to dual frequency Observation RINEX.
     /// Returns [TEC] sorted per [TECKey]
     pub fn observation_dual_phase_ionosphere_tec(&self) -> HashMap<TECKey, TEC> {
-        let mut t = Epoch::default();
         let mut ret = HashMap::new();
-        let mut phases = Vec::<SignalObservation>::new();
 
-        let dt = self.dominant_sampling_interval();
-        if dt.is_none() {
-            return ret;
-        }
-
-        let dt = dt.unwrap();
-
-        for (k, ph) in self.phase_range_sampling_ok_iter() {
-            if k >= t + dt {
-                for ph_i in phases.iter() {
-                    for ph_j in phases.iter() {
-                        if let Some(tec) = ph_i.tec_estimate(&ph_j) {
-                            ret.insert(
-                                TECKey {
-                                    epoch: t,
-                                    sv: ph_i.sv,
-                                    rhs: ph_j.observable.clone(),
-                                    reference: ph_i.observable.clone(),
-                                },
-                                tec,
-                            );
-                        }
+        // signals are only combined with other signals of the same epoch
+        for (k, v) in self.observations_iter().filter(|(k, _)| k.flag.is_ok()) {
+            for ph_i in v.signals.iter() {
+                for ph_j in v.signals.iter() {
+                    if let Some(tec) = ph_i.tec_estimate(ph_j) {
+                        ret.insert(
+                            TECKey {
+                                epoch: k.epoch,
+                                sv: ph_i.sv,
+                                rhs: ph_j.observable.clone(),
+                                reference: ph_i.observable.clone(),
+                            },
+                            tec,
+                        );
                     }
                 }
-                phases.clear();
             }
-
-            t = k;
-            phases.push(ph.clone());
         }
 
         ret
-- 
2.43.0


From 4a2d6657513ba04e7c3c0d38e1942b0f18075756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 58/80] fix: DORIS frequency shift formula

---
 src/doris/station.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/doris/station.rs b/src/doris/station.rs
index c176719..c81d84f 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -24,12 +24,12 @@ impl Station {
 
     /// Station S1 Frequency shift factor
     pub fn s1_frequency_shift(&self) -> f64 {
-        543.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        543.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 
     /// Station U2 Frequency shift factor
     pub fn u2_frequency_shift(&self) -> f64 {
-        107.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        107.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 }
 
-- 
2.43.0


From 73ef800007771f19520544d14cfaccb06d9a94ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 59/80] fix: signal quality selections (loss of lock 0 is good
 tracking, anomalies, missing SNR)

---
 src/observation/rinex/feature.rs | 4 ++--
 src/observation/signal.rs        | 8 ++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 73d5cef..0734802 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -169,7 +169,7 @@ impl Rinex {
     ) -> Box<dyn Iterator<Item = (Epoch, &SignalObservation)> + '_> {
         Box::new(self.phase_range_sampling_ok_iter().filter_map(|(k, sig)| {
             if let Some(lli) = sig.lli {
-                if lli.intersects(LliFlags::OK_OR_UNKNOWN) {
+                if !lli.intersects(LliFlags::LOCK_LOSS | LliFlags::HALF_CYCLE_SLIP) {
                     Some((k, sig))
                 } else {
                     None
@@ -248,7 +248,7 @@ impl Rinex {
     /// Returns an Iterator over [Epoch]s where abnormal sampling conditions were detected.
     /// Anomalies are described by the attached [EpochFlag] in each [ObsKey].
     pub fn epoch_anomalies(&self) -> Box<dyn Iterator<Item = &ObsKey> + '_> {
-        Box::new(self.observation_keys().filter(|k| k.flag.is_ok()))
+        Box::new(self.observation_keys().filter(|k| !k.flag.is_ok()))
     }
 
     /// Form designed signal [Combination] from all observed signals.
diff --git a/src/observation/signal.rs b/src/observation/signal.rs
index 39d1b41..d925e31 100644
--- a/src/observation/signal.rs
+++ b/src/observation/signal.rs
@@ -51,18 +51,14 @@ impl SignalObservation {
     /// data when SNR or LLI are missing.
     pub fn is_ok(self) -> bool {
         let lli_ok = self.lli.unwrap_or(LliFlags::OK_OR_UNKNOWN) == LliFlags::OK_OR_UNKNOWN;
-        let snr_ok = self.snr.unwrap_or_default().strong();
+        let snr_ok = self.snr.map(|snr| snr.strong()).unwrap_or(true);
         lli_ok && snr_ok
     }
 
     /// [Observation::is_ok] with additional SNR criteria to match (>=).
     /// SNR must then be present otherwise this is not OK.
     pub fn is_ok_snr(&self, min_snr: SNR) -> bool {
-        if self
-            .lli
-            .unwrap_or(LliFlags::OK_OR_UNKNOWN)
-            .intersects(LliFlags::OK_OR_UNKNOWN)
-        {
+        if self.lli.unwrap_or(LliFlags::OK_OR_UNKNOWN) == LliFlags::OK_OR_UNKNOWN {
             if let Some(snr) = self.snr {
                 snr >= min_snr
             } else {
-- 
2.43.0


From d4c9875d5ce660eca1cfdc7facadcf627264dadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 60/80] fix: nearest grid node on decreasing grids and last
 intervals

---
 src/linspace.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/linspace.rs b/src/linspace.rs
index 2805f65..cede347 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -53,21 +53,25 @@ impl Linspace {
 
     /// Returns nearest lower bound from point p in the [Linspace]
     pub fn nearest_lower(&self, p: f64) -> Option<f64> {
-        let mut start = self.start;
-        while start < self.end {
-            if start > p {
-                return Some(start - self.spacing);
-            }
-            start += self.spacing;
+        // grids are either increasing or decreasing
+        let (min, max) = (self.start.min(self.end), self.start.max(self.end));
+
+        if p < min || p > max {
+            return None;
+        }
+
+        if self.spacing == 0.0 {
+            return Some(min);
         }
 
-        None
+        let step = self.spacing.abs();
+        Some(min + ((p - min) / step).floor() * step)
     }
 
     /// Returns nearest lower bound from point p in the [Linspace]
     pub fn nearest_above(&self, p: f64) -> Option<f64> {
         let lower = self.nearest_lower(p)?;
-        Some(lower + self.spacing)
+        Some(lower + self.spacing.abs())
     }
 }
 
-- 
2.43.0


From a3856cb1149e2b80f6461cca530a342cc765a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 61/80] fix: altitude of geodetic coordinates is in meters

---
 src/ground_position.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ground_position.rs b/src/ground_position.rs
index 2f34740..bf5a665 100644
--- a/src/ground_position.rs
+++ b/src/ground_position.rs
@@ -30,8 +30,8 @@ impl GroundPosition {
     }
     /// Builds Self from Geodetic coordinates in ddeg
     pub fn from_geodetic(pos: (f64, f64, f64)) -> Self {
-        let (x, y, z) = pos;
-        let (x, y, z) = geodetic2ecef(deg2rad(x), deg2rad(y), deg2rad(z), Ellipsoid::WGS84);
+        let (lat, lon, alt) = pos;
+        let (x, y, z) = geodetic2ecef(deg2rad(lat), deg2rad(lon), alt, Ellipsoid::WGS84);
         Self(x, y, z)
     }
     /// Converts Self to ECEF WGS84
-- 
2.43.0


From d162b7bbc32ab4371e19417d83a05b05cbb567b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:36 +0000
Subject: [PATCH 62/80] fix: the time system label of a single constellation
 header is honored

---
 src/header/parsing.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 1a3be35..d9558cf 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -1032,8 +1032,11 @@ impl Header {
                 }
             },
             Some(c) => {
-                // timescale of a single constellation: is always that of the constellation
-                ts = c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
+                // the timescale of a single constellation is the default value
+                ts = parse_time_system(rem)
+                    .ok()
+                    .or(c.timescale())
+                    .ok_or(ParsingError::NoTimescaleDefinition)?;
             },
         }
 
-- 
2.43.0


From 55f1978f81ad219ba8ec2952580f9be74500e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 63/80] fix: numerical differences of the maximum order and of
 order zero

---
 src/hatanaka/numdiff.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/hatanaka/numdiff.rs b/src/hatanaka/numdiff.rs
index eb56177..bb67da1 100644
--- a/src/hatanaka/numdiff.rs
+++ b/src/hatanaka/numdiff.rs
@@ -48,7 +48,7 @@ impl<const M: usize> NumDiff<M> {
 
     /// Rotate internal buffer, take new sample into account.
     fn rotate_history(&mut self, data: i64) {
-        self.buf.copy_within(0..M - 2, 1);
+        self.buf.copy_within(0..M - 1, 1);
         self.buf[0] = data;
     }
 
@@ -59,6 +59,7 @@ impl<const M: usize> NumDiff<M> {
         }
 
         let new: i64 = match self.m {
+            0 => data,
             1 => data + self.buf[0],
             2 => data + 2 * self.buf[0] - self.buf[1],
             3 => data + 3 * self.buf[0] - 3 * self.buf[1] + self.buf[2],
@@ -84,26 +85,29 @@ impl<const M: usize> NumDiff<M> {
         if self.m < self.level {
             self.m += 1;
         }
-        self.rotate_history(data);
 
-        match self.m {
-            1 => self.buf[0] - self.buf[1],
-            2 => self.buf[0] - 2 * self.buf[1] + self.buf[2],
-            3 => self.buf[0] - 3 * self.buf[1] + 3 * self.buf[2] - self.buf[3],
-            4 => self.buf[0] - 4 * self.buf[1] + 6 * self.buf[2] - 4 * self.buf[3] + self.buf[4],
+        let compressed = match self.m {
+            0 => data,
+            1 => data - self.buf[0],
+            2 => data - 2 * self.buf[0] + self.buf[1],
+            3 => data - 3 * self.buf[0] + 3 * self.buf[1] - self.buf[2],
+            4 => data - 4 * self.buf[0] + 6 * self.buf[1] - 4 * self.buf[2] + self.buf[3],
             5 => {
-                self.buf[0] - 5 * self.buf[1] + 10 * self.buf[2] - 10 * self.buf[3]
-                    + 5 * self.buf[4]
-                    - self.buf[5]
+                data - 5 * self.buf[0] + 10 * self.buf[1] - 10 * self.buf[2]
+                    + 5 * self.buf[3]
+                    - self.buf[4]
             },
             6 => {
-                self.buf[0] - 6 * self.buf[1] + 15 * self.buf[2] - 20 * self.buf[3]
-                    + 15 * self.buf[4]
-                    - 6 * self.buf[5]
-                    + self.buf[6]
+                data - 6 * self.buf[0] + 15 * self.buf[1] - 20 * self.buf[2]
+                    + 15 * self.buf[3]
+                    - 6 * self.buf[4]
+                    + self.buf[5]
             },
             _ => panic!("numdiff is limited to M < 7"),
-        }
+        };
+
+        self.rotate_history(data);
+        compressed
     }
 }
 
-- 
2.43.0


From aac89ec6a91df8dd50e44d6d2be241c29a45ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 64/80] fix: text compression keeps the deletion of trailing
 characters

---
 src/hatanaka/textdiff.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hatanaka/textdiff.rs b/src/hatanaka/textdiff.rs
index c691391..de13d68 100644
--- a/src/hatanaka/textdiff.rs
+++ b/src/hatanaka/textdiff.rs
@@ -72,7 +72,16 @@ impl TextDiff {
         let mut buf_len = self.buffer.len();
         let min_len = std::cmp::min(len, buf_len);
 
+        // characters that do not exist anymore
+        let mut deleted = String::new();
+
         if buf_len > len {
+            deleted = self.buffer[len..]
+                .trim_end()
+                .chars()
+                .map(|c| if c == ' ' { ' ' } else { '&' })
+                .collect();
+
             // special case: shrink history
             self.buffer = self.buffer[..len].to_string();
             buf_len = len; // update size
@@ -117,6 +126,7 @@ impl TextDiff {
             }
         }
 
+        self.compressed.push_str(&deleted);
         &self.compressed
     }
 }
-- 
2.43.0


From 6fa788b672855f249f9219273e249b18b8ae9db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 65/80] fix: receiver clock offsets of compact RINEX are
 recovered, at their scale

---
 src/hatanaka/decompressor/mod.rs | 43 +++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 102e8c7..7beff18 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -367,8 +367,8 @@ impl<const M: usize> DecompressorExpert<M> {
 
         // provide clock data, if any
         if let Some(clock_data) = clock_data {
-            let value = clock_data as f64 / 1000.0;
-            let formatted = format!("       {:.12}", value);
+            let value = clock_data as f64 / 1.0E12;
+            let formatted = format!("      {:15.12}", value);
             let fmt_len = formatted.len(); // TODO improve: this is constant
             let bytes = formatted.as_bytes();
             buf[produced..produced + fmt_len].copy_from_slice(&bytes);
@@ -395,7 +395,12 @@ impl<const M: usize> DecompressorExpert<M> {
 
         // push clock offset (if any)
         if let Some(clock_data) = clock_data {
-            let formatted_ck = format!(" {:15.12}", clock_data);
+            // clock offset: F12.9 after 68 characters
+            let padding = 67 - first_len;
+            buf[produced..produced + padding].fill(b' ');
+            produced += padding;
+
+            let formatted_ck = format!("{:12.9}", clock_data as f64 / 1.0E9);
             let fmt_len = formatted_ck.len(); // TODO: improve (constant)
             let formatted_ck = formatted_ck.as_bytes();
             buf[produced..produced + fmt_len].copy_from_slice(&formatted_ck);
@@ -441,10 +446,12 @@ impl<const M: usize> DecompressorExpert<M> {
         let mut clock_data = Option::<i64>::None;
 
         // attempts to recover clock data (if it exists)
+        let line = line.trim();
+
         if len > 2 {
-            if line[1..].starts_with('&') {
-                if let Ok(order) = line[..1].parse::<usize>() {
-                    if let Ok(val) = line[2..].parse::<i64>() {
+            if let Some((order, val)) = line.split_once('&') {
+                if let Ok(order) = order.parse::<usize>() {
+                    if let Ok(val) = val.parse::<i64>() {
                         // valid kernel reset
                         self.clock_diff.force_init(val, order);
                         clock_data = Some(val);
@@ -452,15 +459,21 @@ impl<const M: usize> DecompressorExpert<M> {
                 }
             }
         }
-        if len == 1 {
-            // highly compressed clock data
-            match line.trim().parse::<i64>() {
-                Ok(val) => {
-                    let val = self.clock_diff.decompress(val);
-                    clock_data = Some(val);
-                },
-                Err(_) => {},
-            }
+        if let Ok(val) = line.parse::<i64>() {
+            // compressed clock data
+            let val = self.clock_diff.decompress(val);
+            clock_data = Some(val);
+        }
+
+        // the clock offset comes after the (padded) epoch description
+        if clock_data.is_some()
+            && buf.len()
+                < self
+                    .state
+                    .size_to_produce(self.v3, self.numsat, self.numobs)
+                    + 48
+        {
+            return Err(Error::BufferOverflow);
         }
 
         // now that we have potentially recovered clock data
-- 
2.43.0


From c2346b28c48895c5f442b350b968c4c1498f2b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 66/80] fix: events of compact RINEX, and epochs that only
 differ by their first digits

---
 src/hatanaka/decompressor/mod.rs | 84 +++++++++++++++++++++++++++++---
 src/record/parsing.rs            | 58 ++++++++++++----------
 2 files changed, 107 insertions(+), 35 deletions(-)

diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 7beff18..159216e 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -38,6 +38,8 @@ pub enum State {
     Clock,
     /// Observations gathering and recovering.
     Observation,
+    /// Forwarding the content of an event, which is not compressed.
+    Event,
 }
 
 impl State {
@@ -220,11 +222,31 @@ impl<const M: usize> DecompressorExpert<M> {
             Self::V1_NUMSAT_OFFSET
         };
 
-        if let Ok(numsat) = &self.epoch_descriptor[start..start + 3].trim().parse::<u8>() {
-            Some(*numsat as usize)
+        let end = (start + 3).min(self.epoch_desc_len);
+
+        let numsat = self.epoch_descriptor.get(start..end)?;
+        let numsat = numsat.trim().parse::<u16>().ok()?;
+        Some(numsat as usize)
+    }
+
+    /// True if current epoch description is the one of an event,
+    /// that other records follow.
+    fn is_event(&self) -> bool {
+        let offset = if self.v3 {
+            Self::V3_NUMSAT_OFFSET
         } else {
-            None
-        }
+            Self::V1_NUMSAT_OFFSET
+        };
+
+        matches!(
+            self.epoch_descriptor.get(offset - 1..offset),
+            Some("2" | "3" | "4" | "5")
+        )
+    }
+
+    /// True when the next line is part of an event
+    pub(crate) fn in_event(&self) -> bool {
+        self.state == State::Event
     }
 
     /// Builds new CRINEX decompressor.
@@ -288,15 +310,23 @@ impl<const M: usize> DecompressorExpert<M> {
 
         // println!("STATE={:?}", self.state); //DEBUG
         match self.state {
-            State::Epoch => self.run_epoch(line, len),
+            State::Epoch => self.run_epoch(line, len, buf),
             State::Clock => self.run_clock(line, len, buf),
             State::Observation => self.run_observation(line, len, buf),
+            State::Event => self.run_event(line, buf),
         }
     }
 
     /// Process following line, in [State::Epoch]
-    fn run_epoch(&mut self, line: &str, len: usize) -> Result<usize, Error> {
-        let min_len = if self.v3 {
+    fn run_epoch(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
+        if line.trim().is_empty() {
+            return Ok(0);
+        }
+
+        let min_len = if !line.starts_with('&') && !line.starts_with('>') {
+            // the description may be identical, up to any character
+            1
+        } else if self.v3 {
             State::MIN_COMPRESSED_EPOCH_SIZE_V3
         } else {
             State::MIN_COMPRESSED_EPOCH_SIZE_V1
@@ -335,7 +365,27 @@ impl<const M: usize> DecompressorExpert<M> {
 
         // numsat needs to be recovered right away,
         // because it is used to determine the next production size
-        self.numsat = self.epoch_numsat().expect("bad recovered content (numsat)");
+        self.numsat = self.epoch_numsat().ok_or(Error::EpochFormat)?;
+
+        if self.is_event() {
+            // description is followed by `numsat` lines
+            self.state = if self.numsat > 0 {
+                State::Event
+            } else {
+                State::Epoch
+            };
+
+            let marker = if self.v3 { b'>' } else { b' ' };
+            let size = 1 + self.epoch_desc_len;
+
+            if buf.len() < size {
+                return Err(Error::BufferOverflow);
+            }
+
+            buf[0] = marker;
+            buf[1..size].copy_from_slice(self.epoch_descriptor.as_bytes());
+            return Ok(size);
+        }
 
         self.state = State::Clock;
         Ok(0)
@@ -441,6 +491,24 @@ impl<const M: usize> DecompressorExpert<M> {
         produced
     }
 
+    /// Process following line, in [State::Event]
+    fn run_event(&mut self, line: &str, buf: &mut [u8]) -> Result<usize, Error> {
+        let line = line.trim_end();
+
+        if buf.len() < line.len() {
+            return Err(Error::BufferOverflow);
+        }
+
+        self.numsat -= 1;
+
+        if self.numsat == 0 {
+            self.state = State::Epoch;
+        }
+
+        buf[..line.len()].copy_from_slice(line.as_bytes());
+        Ok(line.len())
+    }
+
     /// Process following line, in [State::Clock]
     fn run_clock(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
         let mut clock_data = Option::<i64>::None;
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index d5862b7..1fae446 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -188,6 +188,37 @@ impl Record {
                 eos |= true;
             }
 
+            // CRINEX special case:
+            // - apply decompression algorithm prior moving forward
+            // - decompress new pending line, which may recover several lines (in old V1 format)
+            // - comments may be part of an event
+            let is_comment = is_rinex_comment(&line_buf);
+
+            if is_crinex && !eos && (!is_comment || decompressor.in_event()) {
+                let line_len = line_buf.len();
+
+                // catch errors nicely, simply log them
+                // it is normal to abort on final line for example
+                match decompressor.decompress(&line_buf, line_len, &mut buf, CRINEX_BUF_SIZE) {
+                    Ok(size) => {
+                        // clear and overwrite pending content with recovered content (if any)
+                        // we should have valid ASCII UTF-8 at all times, at this point
+                        line_buf.clear();
+
+                        if size > 0 {
+                            let recovered =
+                                from_utf8(&buf[..size]).map_err(|_| ParsingError::BadUtf8Crinex)?;
+
+                            line_buf.push_str(recovered);
+                            line_buf.push('\n');
+                        }
+                    },
+                    Err(_) => {
+                        crinex_error = true;
+                    },
+                }
+            }
+
             // (special case) COMMENTS: store as is
             if is_rinex_comment(&line_buf) {
                 let comment = line_buf.split_at(60).0.trim_end();
@@ -226,33 +257,6 @@ impl Record {
                 continue;
             }
 
-            // CRINEX special case:
-            // - apply decompression algorithm prior moving forward
-            // - decompress new pending line, which may recover several lines (in old V1 format)
-            if is_crinex {
-                let line_len = line_buf.len();
-
-                // catch errors nicely, simply log them
-                // it is normal to abort on final line for example
-                match decompressor.decompress(&line_buf, line_len, &mut buf, CRINEX_BUF_SIZE) {
-                    Ok(size) => {
-                        if size > 0 {
-                            // clear and overwrite pending content with recovered content
-                            // we should have valid ASCII UTF-8 at all times, at this point
-                            let recovered =
-                                from_utf8(&buf[..size]).map_err(|_| ParsingError::BadUtf8Crinex)?;
-
-                            line_buf.clear();
-                            line_buf = recovered.to_string();
-                            line_buf.push('\n');
-                        }
-                    },
-                    Err(_) => {
-                        crinex_error = true;
-                    },
-                }
-            }
-
             let mut new_epoch = false;
 
             // we're trying to stack a complete epoch
-- 
2.43.0


From 143cb816cb79887e42b06777438839a2a200c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 67/80] fix: layout of the V1 observations recovered from
 compact RINEX

---
 src/hatanaka/decompressor/mod.rs | 332 +++++++++----------------------
 src/hatanaka/mod.rs              |   3 +
 src/record/parsing.rs            |   2 +-
 3 files changed, 96 insertions(+), 241 deletions(-)

diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 159216e..2846857 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -115,6 +115,8 @@ pub struct DecompressorExpert<const M: usize> {
     sv_ptr: usize,  // inside epoch
     numobs: usize,  // total
     obs_ptr: usize, // inside epoch
+    /// True if last observations ended with a value: no space, no flags
+    ends_with_value: bool,
     /// [TextDiff] that works on entire Epoch line
     epoch_diff: TextDiff,
     /// Epoch descriptor, for single allocation
@@ -143,6 +145,7 @@ impl<const M: usize> Default for DecompressorExpert<M> {
             sv_ptr: 0,
             numobs: 0,
             obs_ptr: 0,
+            ends_with_value: false,
             first_epoch: true,
             epoch_desc_len: 0,
             sv: Default::default(),
@@ -265,6 +268,7 @@ impl<const M: usize> DecompressorExpert<M> {
             sv_ptr: 0,
             numobs: 0,
             obs_ptr: 0,
+            ends_with_value: false,
             constellation,
             gnss_observables,
             first_epoch: true,
@@ -299,6 +303,33 @@ impl<const M: usize> DecompressorExpert<M> {
         len: usize,
         buf: &mut [u8],
         size: usize,
+    ) -> Result<usize, Error> {
+        let state = self.state;
+        let mut produced = self.recover(line, len, buf, size)?;
+
+        // V1: descriptions of a multiple of 12 vehicles, and observations
+        // that end with a value, are concluded by an empty line
+        let conclude = match state {
+            State::Clock => self.numsat % 12 == 0,
+            State::Observation => self.ends_with_value,
+            _ => false,
+        };
+
+        if !self.v3 && conclude && produced + 2 <= size {
+            buf[produced..produced + 2].copy_from_slice(b"\n ");
+            produced += 2;
+        }
+
+        Ok(produced)
+    }
+
+    /// [Self::decompress] without any line that does not belong to RINEX.
+    pub(crate) fn recover(
+        &mut self,
+        line: &str,
+        len: usize,
+        buf: &mut [u8],
+        size: usize,
     ) -> Result<usize, Error> {
         if size
             < self
@@ -312,7 +343,7 @@ impl<const M: usize> DecompressorExpert<M> {
         match self.state {
             State::Epoch => self.run_epoch(line, len, buf),
             State::Clock => self.run_clock(line, len, buf),
-            State::Observation => self.run_observation(line, len, buf),
+            State::Observation => self.run_observation(line, buf),
             State::Event => self.run_event(line, buf),
         }
     }
@@ -457,14 +488,14 @@ impl<const M: usize> DecompressorExpert<M> {
             produced += fmt_len;
         }
 
-        buf[produced] = b'\n'; // conclude 1st line
-        produced += 1;
-
         // construct all following lines that need to be wrapped and padded
         let mut offset = 67;
-        let nb_extra = (self.epoch_desc_len - Self::V1_NUMSAT_OFFSET) / 36;
+        let nb_extra = div_ceil(self.numsat, 12).saturating_sub(1);
 
         for _ in 0..nb_extra {
+            buf[produced] = b'\n'; // conclude previous line
+            produced += 1;
+
             // extra padding
             buf[produced..produced + 32].copy_from_slice(&[
                 b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ',
@@ -476,16 +507,14 @@ impl<const M: usize> DecompressorExpert<M> {
 
             // copy data slice
             let end = (offset + 36).min(self.epoch_desc_len);
-            let size = end - offset;
+            let size = end.saturating_sub(offset);
 
-            buf[produced..produced + size].copy_from_slice(&bytes[offset..end]);
+            if let Some(slice) = bytes.get(offset..offset + size) {
+                buf[produced..produced + size].copy_from_slice(slice);
+            }
 
             offset += size;
             produced += size;
-
-            // terminate this line
-            buf[produced] = b'\n';
-            produced += 1;
         }
 
         produced
@@ -519,6 +548,9 @@ impl<const M: usize> DecompressorExpert<M> {
         if len > 2 {
             if let Some((order, val)) = line.split_once('&') {
                 if let Ok(order) = order.parse::<usize>() {
+                    if order > M {
+                        return Err(Error::CompressionOrder);
+                    }
                     if let Ok(val) = val.parse::<i64>() {
                         // valid kernel reset
                         self.clock_diff.force_init(val, order);
@@ -604,8 +636,7 @@ impl<const M: usize> DecompressorExpert<M> {
     }
 
     /// Process following line, in [State::Observation]
-    fn run_observation(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
-        let mut consumed = 0;
+    fn run_observation(&mut self, line: &str, buf: &mut [u8]) -> Result<usize, Error> {
         let mut produced = 0;
         let mut new_state = self.state;
 
@@ -626,247 +657,68 @@ impl<const M: usize> DecompressorExpert<M> {
         // When signal sampling was not feasible: data is omitted (blanked) by a single '_'
         // Which is not particularly clever and means the data flags can only provided at the end of the line.
         // Since data flags are text compressed, it can create some weird situations.
-        for ptr in 0..self.numobs {
-            // We must output something for each expected data points (whatever happens).
-            // So we default to a BLANK, which simplifies the following code:
-            // we only implement successful cases.
-            let mut formatted = "                ".to_string();
-
-            // Try to locate next '_', which is either
-            //  . normal/expected line progression
-            //  . or a blanking
-            let offset = line[consumed..].find(' ');
-
-            if let Some(offset) = offset {
-                if offset > 1 {
-                    // observation (made of at least two digits)
-                    // Determine whether this is a kernel reset or compression continuation
-
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
+        // every field is followed by a space, flags come last
+        let mut remaining = line.trim_end();
+        self.ends_with_value = false;
 
-                    consumed += offset + 1; // consume until this point
-                } else {
-                    // this is either BLANK or highly compressed (=single digit value)
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    if slice.len() > 0 {
-                        // this is a digit (highly compressed value)
+        for ptr in 0..self.numobs {
+            if !remaining.is_empty() && !remaining.contains(' ') {
+                self.ends_with_value = true;
+            }
 
-                        //#[cfg(feature = "log")]
-                        //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
+            let (field, next) = remaining.split_once(' ').unwrap_or((remaining, ""));
+            remaining = next;
 
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
+            let value = if let Some((order, value)) = field.split_once('&') {
+                match (order.parse::<usize>(), value.parse::<i64>()) {
+                    (Ok(order), Ok(value)) => {
+                        if order > M {
+                            return Err(Error::CompressionOrder);
                         }
-                        consumed += 2; // consume this byte
-                    } else {
-                        consumed += 1;
-                        self.blanking_indexes.push(ptr);
-                    }
-                }
 
-                let fmt_len = formatted.len(); // TODO: improve, this is constant
-                let bytes = formatted.as_bytes();
-
-                // push into user
-                buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                produced += fmt_len;
-
-                // handle V1 padding and wrapping
-                if !self.v3 {
-                    if (ptr % 5) == 4 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n".to_string();
-                        let bytes = formatted.as_bytes();
-                        let fmt_len = formatted.len();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
+                        // core (re)initialization
+                        self.obs_diff
+                            .insert((self.sv, ptr), NumDiff::<M>::new(value, order));
 
-                // this may cause trimed lines to panic on next '_' search
-                // so we exist the loop so we do not overflow
-                if consumed >= len {
-                    break;
+                        Some(value)
+                    },
+                    _ => None,
                 }
+            } else if let Ok(value) = field.parse::<i64>() {
+                self.obs_diff
+                    .get_mut(&(self.sv, ptr))
+                    .map(|kernel| kernel.decompress(value))
             } else {
-                // early line termination.
-                // This happens when last observations are all missing (possibly more than one)
-                // and observation "flags" are all fully compressed (100% compression factor)
-
-                // if we have leftovers, that means we have one last observation
-                if len > consumed {
-                    let mut formatted = "                ".to_string();
-
-                    // grab slice
-                    let slice = line[consumed..].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
-
-                    let fmt_len = formatted.len(); // TODO: improve, this is constant
-                    let bytes = formatted.as_bytes();
-
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n                 ".to_string();
-                        let fmt_len = formatted.len();
-                        let bytes = formatted.as_bytes();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
-
-                // 1. we need to push all required BLANKING
-                // 2. we need to preserve data flags
-                // 3. and finally conclude this SV
-                let nb_missing = self.numobs - ptr - 1;
-
-                let formatted = "                ".to_string();
-                let fmt_len = formatted.len(); // IMPROVE: this is constant
-                let bytes = formatted.as_bytes();
-
-                // fill required nb of blanks
-                for j in 0..nb_missing {
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        if (ptr + j) % 5 == 4 {
-                            // TODO: improve, this is constant
-                            let formatted = "\n            ".to_string();
-                            let fmt_len = formatted.len();
-                            let bytes = formatted.as_bytes();
-
-                            buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                            produced += fmt_len;
-                        }
-                    }
+                if field.is_empty() {
+                    self.blanking_indexes.push(ptr);
                 }
+                None
+            };
 
-                // trick to preserve data flags
-                let textdiff = self
-                    .flags_diff
-                    .get_mut(&self.sv)
-                    .expect("internal error: bad crinex content?");
-
-                let flags = textdiff.decompress("").trim_end();
-                let flags_len = flags.len();
-
-                //println!("PRESERVED \"{}\"", flags); // DEBUG
-                Self::write_flags(flags, flags_len, self.numobs, self.v3, buf);
-
-                // conclude this SV
-                self.sv_ptr += 1;
-
-                //#[cfg(feature = "log")]
-                //debug!("[{} CONCLUDED {}/{}]", self.sv, self.sv_ptr, self.numsat);
-
-                if self.sv_ptr == self.numsat {
-                    //#[cfg(feature = "log")]
-                    //debug!("[END OF EPOCH]");
-
-                    self.state = State::Epoch;
-                } else {
-                    self.sv = self.next_sv().expect("failed to determine next sv");
-
-                    let constellation = if self.sv.constellation.is_sbas() {
-                        Constellation::SBAS
-                    } else {
-                        self.sv.constellation
-                    };
+            // We must output something for each expected data points (whatever happens)
+            let formatted = if let Some(value) = value {
+                format!("{:14.3}  ", value as f64 / 1000.0)
+            } else {
+                "                ".to_string()
+            };
 
-                    self.numobs = self
-                        .get_observables(&constellation)
-                        .expect("internal error")
-                        .len();
+            let fmt_len = formatted.len(); // TODO: improve, this is constant
+            let bytes = formatted.as_bytes();
 
-                    self.state = State::Observation;
-                }
+            // push into user
+            buf[produced..produced + fmt_len].copy_from_slice(&bytes);
+            produced += fmt_len;
 
-                return Ok(produced);
+            // handle V1 wrapping: 5 observations per line
+            if !self.v3 && (ptr % 5) == 4 && ptr + 1 < self.numobs {
+                buf[produced] = b'\n';
+                produced += 1;
             }
-        } // for
-
-        // at this point, we should be left with "data flags" in the buffer.
-        // That may not be the case. We may have consumed everything when
-        // the line was trimmed at production time, meaning flags should be preserved
+        }
 
-        if consumed < len {
-            // proceed to flags recovering
-            let flags = &line[consumed..].trim_end();
+        // proceed to flags recovering
+        {
+            let flags = remaining;
 
             // println!("FLAGS \"{}\"", flags); // DEBUG
 
@@ -950,7 +802,7 @@ impl<const M: usize> DecompressorExpert<M> {
         if v3 {
             Self::write_v3_flags(flags, flags_len, numobs, buf);
         } else {
-            Self::write_v1_flags(flags, flags_len, buf);
+            Self::write_v1_flags(flags, flags_len.min(2 * numobs), buf);
         }
     }
 
diff --git a/src/hatanaka/mod.rs b/src/hatanaka/mod.rs
index 7c1fd99..138c1be 100644
--- a/src/hatanaka/mod.rs
+++ b/src/hatanaka/mod.rs
@@ -48,4 +48,7 @@ pub enum Error {
     ///   with previously formwared Header
     #[error("sv parsing error")]
     SVParsing,
+    /// Order of the differences is not supported by this decompressor
+    #[error("unsupported compression order")]
+    CompressionOrder,
 }
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 1fae446..7357882 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -199,7 +199,7 @@ impl Record {
 
                 // catch errors nicely, simply log them
                 // it is normal to abort on final line for example
-                match decompressor.decompress(&line_buf, line_len, &mut buf, CRINEX_BUF_SIZE) {
+                match decompressor.recover(&line_buf, line_len, &mut buf, CRINEX_BUF_SIZE) {
                     Ok(size) => {
                         // clear and overwrite pending content with recovered content (if any)
                         // we should have valid ASCII UTF-8 at all times, at this point
-- 
2.43.0


From 2e8936f2c46e088e9b557609bbf23025824a61c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 68/80] fix: compact RINEX arcs, flags and clock restart when
 they are interrupted; SBAS and malformed descriptions

---
 src/hatanaka/compressor.rs       | 44 ++++++++++++---
 src/hatanaka/decompressor/mod.rs | 95 +++++++++++++++-----------------
 2 files changed, 81 insertions(+), 58 deletions(-)

diff --git a/src/hatanaka/compressor.rs b/src/hatanaka/compressor.rs
index c8d32b4..0058428 100644
--- a/src/hatanaka/compressor.rs
+++ b/src/hatanaka/compressor.rs
@@ -5,7 +5,7 @@ use crate::{
     error::FormattingError,
     hatanaka::{NumDiff, TextDiff},
     observation::{HeaderFields, LliFlags, Record},
-    prelude::{Observable, SV},
+    prelude::{Constellation, Observable, SV},
     BufWriter,
 };
 
@@ -22,6 +22,8 @@ pub struct CompressorExpert<const M: usize> {
     /// True when epoch descriptor should be compressed.
     /// True on first epoch.
     epoch_compression: bool,
+    /// Clock offset kernel
+    clock_diff: Option<NumDiff<M>>,
     /// Readable Epoch being compressed
     epoch_buf: String,
     /// Readable flags being compressed
@@ -42,6 +44,7 @@ impl<const M: usize> Default for CompressorExpert<M> {
         Self {
             v3: true,
             epoch_compression: false,
+            clock_diff: None,
             epoch_diff: TextDiff::new(""),
             epoch_buf: String::with_capacity(128),
             flags_buf: String::with_capacity(128),
@@ -107,8 +110,8 @@ impl<const M: usize> CompressorExpert<M> {
                 ));
             } else {
                 self.epoch_buf.push_str(&format!(
-                    "{:02} {:02} {:02} {:02} {:02} {:02}.{:07}  {}{:3}      ",
-                    y,
+                    "{:02} {:02} {:02} {:02} {:02} {:02}.{:07}  {}{:3}",
+                    y % 100,
                     m,
                     d,
                     hh,
@@ -127,6 +130,10 @@ impl<const M: usize> CompressorExpert<M> {
 
             // Epoch compression
             if !self.epoch_compression {
+                // everything restarts
+                self.clock_diff = None;
+                self.flags_diff.clear();
+                self.sv_kernels.clear();
                 self.epoch_diff.force_init(&self.epoch_buf);
                 writeln!(w, "{}", self.epoch_buf.trim_end())?;
             } else {
@@ -136,20 +143,39 @@ impl<const M: usize> CompressorExpert<M> {
 
             if let Some(clk) = v.clock {
                 // TODO: clock is not correctly supported yet
-                if !self.epoch_compression {
-                    writeln!(w, "{}", clk.offset_s)?;
+                // 9 decimals in V1, 12 decimals in V3
+                let scaling = if self.v3 { 1.0E12 } else { 1.0E9 };
+                let quantized = (clk.offset_s * scaling).round() as i64;
+
+                if let Some(kernel) = &mut self.clock_diff {
+                    writeln!(w, "{}", kernel.compress(quantized))?;
+                } else {
+                    let order = 3.min(M);
+                    self.clock_diff = Some(NumDiff::<M>::new(quantized, order));
+                    writeln!(w, "{}&{}", order, quantized)?;
                 }
             } else {
+                self.clock_diff = None;
                 // No clock: BLANKed line
                 write!(w, "\n")?;
             }
 
+            // SV that are not sampled anymore will restart
+            self.flags_diff.retain(|sv, _| svnn.contains(sv));
+            self.sv_kernels.retain(|(sv, _), _| svnn.contains(sv));
+
             // For each SV
             for sv in svnn.iter() {
                 // Following header specs
+                let constellation = if sv.constellation.is_sbas() {
+                    Constellation::SBAS
+                } else {
+                    sv.constellation
+                };
+
                 let observables = header
                     .codes
-                    .get(&sv.constellation)
+                    .get(&constellation)
                     .ok_or(FormattingError::MissingObservableDefinition)?;
 
                 for observable in observables.iter() {
@@ -172,11 +198,12 @@ impl<const M: usize> CompressorExpert<M> {
                             write!(w, "{} ", compressed)?;
                         } else {
                             // first encounter: build kernel
-                            let kernel = NumDiff::<M>::new(quantized, 3);
+                            let order = 3.min(M);
+                            let kernel = NumDiff::<M>::new(quantized, order);
                             self.sv_kernels
                                 .insert((signal.sv, signal.observable.clone()), kernel);
 
-                            write!(w, "{}&{} ", 3, quantized)?;
+                            write!(w, "{}&{} ", order, quantized)?;
                         }
 
                         if let Some(lli) = signal.lli {
@@ -194,6 +221,7 @@ impl<const M: usize> CompressorExpert<M> {
                         // BLANK is a single ' '
                         write!(w, "{}", ' ')?;
                         self.flags_buf.push_str("  ");
+                        self.sv_kernels.remove(&(*sv, observable.clone()));
                     }
                 }
 
diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 2846857..f87c949 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -188,8 +188,9 @@ impl<const M: usize> DecompressorExpert<M> {
     fn next_sv(&self) -> Option<SV> {
         let start = Self::sv_slice_start(self.v3, self.sv_ptr);
         let end = (start + 3).min(self.epoch_desc_len);
+        let slice = self.epoch_descriptor.get(start..end)?.trim();
 
-        if let Ok(sv) = SV::from_str(&self.epoch_descriptor[start..end].trim()) {
+        if let Ok(sv) = SV::from_str(slice) {
             Some(sv)
         } else {
             // May fail on old revisions that have a mono GNSS system
@@ -201,7 +202,7 @@ impl<const M: usize> DecompressorExpert<M> {
                     },
                     constellation => {
                         // PRN# parsing attempt
-                        if let Ok(prn) = &self.epoch_descriptor[start..end].trim().parse::<u8>() {
+                        if let Ok(prn) = &slice.parse::<u8>() {
                             Some(SV {
                                 prn: *prn,
                                 constellation,
@@ -376,6 +377,8 @@ impl<const M: usize> DecompressorExpert<M> {
             self.epoch_diff.force_init(trimmed);
             self.epoch_descriptor = trimmed.to_string();
             self.epoch_desc_len = trimmed.len();
+            self.flags_diff.clear();
+            self.obs_diff.clear();
         } else if line.starts_with('>') {
             if !self.v3 {
                 return Err(Error::BadV1Format);
@@ -384,6 +387,8 @@ impl<const M: usize> DecompressorExpert<M> {
             self.epoch_diff.force_init(trimmed);
             self.epoch_descriptor = trimmed.to_string();
             self.epoch_desc_len = trimmed.len();
+            self.flags_diff.clear();
+            self.obs_diff.clear();
         } else {
             self.epoch_descriptor = self.epoch_diff.decompress(trimmed).to_string();
             self.epoch_desc_len = self.epoch_descriptor.len();
@@ -585,52 +590,36 @@ impl<const M: usize> DecompressorExpert<M> {
         self.sv_ptr = 0;
         self.first_epoch = false;
 
-        // grab first sv
-        self.sv = self.next_sv().expect("bad recovered content (sv)");
+        if self.numsat == 0 {
+            self.state = State::Epoch;
+            return Ok(produced);
+        }
 
         // cross check recovered content
         // &, at the same time, make sure we are ready to process any new SV
-        for i in 0..self.numsat {
-            let start = Self::sv_slice_start(self.v3, i);
+        let mut flags_diff = HashMap::with_capacity(self.numsat);
 
+        for i in 0..self.numsat {
             // any invalid SV description, will cause us to wait for a new epoch.
             // In other terms, epoch is fully disregarded.
-            let sv = match SV::from_str(&self.epoch_descriptor[start..start + 3]) {
-                Ok(sv) => sv,
-                Err(_) => {
-                    // SV parsing may be in failure in case of very old V1 CRINEX mono GNSS
-                    // that omit the constellation
-                    if !self.v3 {
-                        if let Ok(prn) = &self.epoch_descriptor[start + 1..start + 3]
-                            .trim()
-                            .parse::<u8>()
-                        {
-                            SV {
-                                prn: *prn,
-                                constellation: self.constellation,
-                            }
-                        } else {
-                            return Err(Error::SVParsing);
-                        }
-                    } else {
-                        return Err(Error::SVParsing);
-                    }
-                },
-            };
+            self.sv_ptr = i;
+            let sv = self.next_sv().ok_or(Error::SVParsing)?;
 
-            // initialize on first encounter
-            if self.flags_diff.get(&sv).is_none() {
-                // initializes the internal buffer with some capacity..
-                let textdiff = TextDiff::new("               ");
-                self.flags_diff.insert(sv, textdiff);
-            }
+            // initialize on first encounter, and when this SV comes back
+            let textdiff = self
+                .flags_diff
+                .remove(&sv)
+                .unwrap_or(TextDiff::new("               "));
+
+            flags_diff.insert(sv, textdiff);
         }
 
-        let obs = self
-            .get_observables(&self.sv.constellation)
-            .expect("failed to determine sv definition");
+        self.flags_diff = flags_diff;
 
-        self.numobs = obs.len();
+        // grab first sv
+        self.sv_ptr = 0;
+        self.sv = self.next_sv().ok_or(Error::SVParsing)?;
+        self.numobs = self.sv_numobs().ok_or(Error::SVParsing)?;
         self.state = State::Observation;
         Ok(produced)
     }
@@ -722,7 +711,10 @@ impl<const M: usize> DecompressorExpert<M> {
 
             // println!("FLAGS \"{}\"", flags); // DEBUG
 
-            let kernel = self.flags_diff.get_mut(&self.sv).expect("internal error");
+            let kernel = self
+                .flags_diff
+                .get_mut(&self.sv)
+                .ok_or(Error::SVParsing)?;
 
             let flags = kernel.decompress(flags);
             let flags_len = flags.len();
@@ -768,24 +760,27 @@ impl<const M: usize> DecompressorExpert<M> {
 
             new_state = State::Epoch;
         } else {
-            self.sv = self.next_sv().expect("failed to determine next sv");
-
-            let constellation = if self.sv.constellation.is_sbas() {
-                Constellation::SBAS
-            } else {
-                self.sv.constellation
-            };
+            self.sv = self.next_sv().ok_or(Error::SVParsing)?;
 
-            self.numobs = self
-                .get_observables(&constellation)
-                .expect("internal error")
-                .len();
+            self.numobs = self.sv_numobs().ok_or(Error::SVParsing)?;
         }
 
         self.state = new_state;
         Ok(produced)
     }
 
+    /// Number of observations that describe current [SV]
+    fn sv_numobs(&self) -> Option<usize> {
+        let constellation = if self.sv.constellation.is_sbas() {
+            Constellation::SBAS
+        } else {
+            self.sv.constellation
+        };
+
+        let observables = self.get_observables(&constellation)?;
+        Some(observables.len())
+    }
+
     /// Helper to retrieve observable for given system
     fn get_observables(&self, constell: &Constellation) -> Option<&Vec<Observable>> {
         // We use mixed to store a single value for single definitions
-- 
2.43.0


From 70d5a5fef93cee624e01469e908dee67bc042f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 69/80] fix: file names that follow no convention are refused,
 receiver numbers, compressed short names, two digit years before 2000

---
 src/production/ffu.rs |  6 +++-
 src/production/mod.rs | 84 +++++++++++++++++++------------------------
 2 files changed, 41 insertions(+), 49 deletions(-)

diff --git a/src/production/ffu.rs b/src/production/ffu.rs
index bb21fc8..1092917 100644
--- a/src/production/ffu.rs
+++ b/src/production/ffu.rs
@@ -62,7 +62,11 @@ impl std::str::FromStr for FFU {
         if s.len() < 3 {
             return Err(Error::InvalidFFU);
         }
-        let val = s[..2].parse::<u32>().map_err(|_| Error::InvalidFFU)?;
+        let val = s
+            .get(..2)
+            .ok_or(Error::InvalidFFU)?
+            .parse::<u32>()
+            .map_err(|_| Error::InvalidFFU)?;
         let unit = match s.chars().nth(2) {
             Some('S') => Unit::Second,
             Some('M') => Unit::Minute,
diff --git a/src/production/mod.rs b/src/production/mod.rs
index 9b6f300..803feb7 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -112,7 +112,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -128,7 +128,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -147,32 +147,38 @@ impl std::str::FromStr for ProductionAttributes {
     type Err = Error;
     fn from_str(fname: &str) -> Result<Self, Self::Err> {
         let fname = fname.to_uppercase();
-        if fname.len() < 13 {
-            let offset = fname.find('.').unwrap_or(0);
-            if offset != 8 {
-                return Err(Error::NonStandardFileName);
-            };
+        let offset = fname.find('.').unwrap_or(0);
 
-            // determine type of RINEX first
-            // because it determines how to parse the "name" field
-            let year = fname[offset + 1..offset + 3]
+        // returns a field of this name
+        let field = |start: usize, end: usize| -> Result<&str, Error> {
+            fname.get(start..end).ok_or(Error::NonStandardFileName)
+        };
+
+        // returns a numerical field of this name
+        let number = |start: usize, end: usize| -> Result<u32, Error> {
+            field(start, end)?
                 .parse::<u32>()
-                .map_err(|_| Error::NonStandardFileName)?;
+                .map_err(|_| Error::NonStandardFileName)
+        };
+
+        if offset == 8 {
+            // short (V2) file names
+            // year uses 2 digit in old format
+            let year = match number(offset + 1, offset + 3)? {
+                yy if yy < 80 => yy + 2_000,
+                yy => yy + 1_900,
+            };
 
-            let rtype = &fname[offset + 3..offset + 4];
+            let rtype = field(offset + 3, offset + 4)?;
             let name_offset = match rtype {
                 "I" => 3usize, // only 3 digits on IONEX
                 _ => 4usize,
             };
 
             Ok(Self {
-                year: year + 2_000, // year uses 2 digit in old format
-                name: fname[..name_offset].to_string(),
-                doy: {
-                    fname[4..7]
-                        .parse::<u32>()
-                        .map_err(|_| Error::NonStandardFileName)?
-                },
+                year,
+                name: field(0, name_offset)?.to_string(),
+                doy: number(4, 7)?,
                 region: match rtype {
                     "I" => fname.chars().nth(3),
                     _ => None,
@@ -180,22 +186,16 @@ impl std::str::FromStr for ProductionAttributes {
                 v3_details: None,
             })
         } else {
-            let offset = fname.find('.').unwrap_or(0);
             if offset < 30 {
                 return Err(Error::NonStandardFileName);
             };
 
-            let year = fname[12..16]
-                .parse::<u32>()
-                .map_err(|_| Error::NonStandardFileName)?;
-
-            let batch = fname[5..6]
-                .parse::<u8>()
-                .map_err(|_| Error::NonStandardFileName)?;
+            let year = number(12, 16)?;
+            let batch = number(4, 6)? as u8;
 
             // determine type of RINEX first
             // because it determines how to parse the "name" field
-            let rtype = &fname[offset + 3..offset + 4];
+            let rtype = field(offset + 3, offset + 4)?;
             let name_offset = match rtype {
                 "I" => 3usize, // only 3 digits on IONEX
                 _ => 4usize,
@@ -203,30 +203,18 @@ impl std::str::FromStr for ProductionAttributes {
 
             Ok(Self {
                 year,
-                name: fname[..name_offset].to_string(),
-                doy: {
-                    fname[16..19]
-                        .parse::<u32>()
-                        .map_err(|_| Error::NonStandardFileName)?
-                },
+                name: field(0, name_offset)?.to_string(),
+                doy: number(16, 19)?,
                 region: None, // IONEX files only use a short format
                 v3_details: Some(DetailedProductionAttributes {
                     batch,
-                    country: fname[6..9].to_string(),
-                    ppu: PPU::from_str(&fname[24..27])?,
-                    data_src: DataSource::from_str(&fname[10..11])?,
-                    hh: {
-                        fname[19..21]
-                            .parse::<u8>()
-                            .map_err(|_| Error::NonStandardFileName)?
-                    },
-                    mm: {
-                        fname[21..23]
-                            .parse::<u8>()
-                            .map_err(|_| Error::NonStandardFileName)?
-                    },
+                    country: field(6, 9)?.to_string(),
+                    ppu: PPU::from_str(field(24, 27)?)?,
+                    data_src: DataSource::from_str(field(10, 11)?)?,
+                    hh: number(19, 21)? as u8,
+                    mm: number(21, 23)? as u8,
                     ffu: match offset {
-                        34 => Some(FFU::from_str(&fname[28..32])?),
+                        34 => Some(FFU::from_str(field(28, 32)?)?),
                         _ => None, // NAV FILE case
                     },
                 }),
-- 
2.43.0


From 55d93aa4888d4b749adbe5f0f36057c4d48d66aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 70/80] fix: sampling periods in file names are exact

---
 src/production/ffu.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/production/ffu.rs b/src/production/ffu.rs
index 1092917..c85484b 100644
--- a/src/production/ffu.rs
+++ b/src/production/ffu.rs
@@ -12,7 +12,24 @@ pub struct FFU {
 impl From<Duration> for FFU {
     fn from(dt: Duration) -> Self {
         let total_seconds = dt.to_seconds();
-        if dt < SECONDS_PER_MINUTE * Unit::Second {
+
+        // prefer the largest unit that describes this period exactly
+        for (unit, unit_seconds) in [
+            (Unit::Day, SECONDS_PER_DAY),
+            (Unit::Hour, SECONDS_PER_HOUR),
+            (Unit::Minute, SECONDS_PER_MINUTE),
+            (Unit::Second, 1.0),
+        ] {
+            let val = total_seconds / unit_seconds;
+            if val >= 1.0 && val < 100.0 && val.fract() == 0.0 {
+                return Self {
+                    val: val as u32,
+                    unit,
+                };
+            }
+        }
+
+        if dt < 1.0 * Unit::Minute {
             Self {
                 val: total_seconds.round() as u32,
                 unit: Unit::Second,
-- 
2.43.0


From 59ef017ea03a5f04e1f6cddf9d1ae85a8d9d5da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 71/80] fix: day of year, years before 2000, custom data source
 and start time of generated file names

---
 src/lib.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8811c7b..1d33fbe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -491,7 +491,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = epoch.day_of_year().floor() as u32;
                             format!("{:03}", ddd)
                         } else {
                             format!("{:03}", self.production.doy)
@@ -499,13 +499,13 @@ impl Rinex {
                     },
                 };
                 let yy = match &custom {
-                    Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                    Some(ref custom) => format!("{:02}", custom.year % 100),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
                             let yy = epoch_decompose(epoch).0;
-                            format!("{:02}", yy - 2_000)
+                            format!("{:02}", yy % 100)
                         } else {
-                            format!("{:02}", self.production.year - 2_000)
+                            format!("{:02}", self.production.year % 100)
                         }
                     },
                 };
@@ -520,7 +520,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = epoch.day_of_year().floor() as u32;
                             format!("{:03}", ddd)
                         } else {
                             "DDD".to_string()
@@ -529,11 +529,11 @@ impl Rinex {
                 };
                 if short {
                     let yy = match &custom {
-                        Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                        Some(ref custom) => format!("{:02}", custom.year % 100),
                         None => {
                             if let Some(epoch) = self.first_epoch() {
                                 let yy = epoch_decompose(epoch).0;
-                                format!("{:02}", yy - 2_000)
+                                format!("{:02}", yy % 100)
                             } else {
                                 "YY".to_string()
                             }
@@ -591,14 +591,21 @@ impl Rinex {
                         },
                     };
 
-                    let src = match &header.rcvr {
-                        Some(_) => 'R', // means GNSS rcvr
-                        None => {
-                            if let Some(details) = &self.production.v3_details {
-                                details.data_src.to_char()
-                            } else {
-                                'U' // means: unspecified
-                            }
+                    let custom_details = custom
+                        .as_ref()
+                        .and_then(|custom| custom.v3_details.as_ref());
+
+                    let src = match custom_details {
+                        Some(details) => details.data_src.to_char(),
+                        None => match &header.rcvr {
+                            Some(_) => 'R', // means GNSS rcvr
+                            None => {
+                                if let Some(details) = &self.production.v3_details {
+                                    details.data_src.to_char()
+                                } else {
+                                    'U' // means: unspecified
+                                }
+                            },
                         },
                     };
 
@@ -723,14 +730,14 @@ impl Rinex {
 
         let first_epoch = self.first_epoch();
         let last_epoch = self.last_epoch();
-        let first_epoch_gregorian = first_epoch.map(|t0| t0.to_gregorian_utc());
+        let first_epoch_gregorian = first_epoch.map(epoch_decompose);
 
         match first_epoch_gregorian {
             Some((y, _, _, _, _, _, _)) => attributes.year = y as u32,
             _ => {},
         }
         match first_epoch {
-            Some(t0) => attributes.doy = t0.day_of_year().round() as u32,
+            Some(t0) => attributes.doy = t0.day_of_year().floor() as u32,
             _ => {},
         }
 
-- 
2.43.0


From bb46b100d4018564c216573c3adddae221b530b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 72/80] fix: input errors are returned by the readers

---
 src/error.rs          | 2 ++
 src/header/parsing.rs | 2 +-
 src/lib.rs            | 4 ++--
 src/record/parsing.rs | 4 +++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index d8c3507..c043491 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -14,6 +14,8 @@ use crate::hatanaka::Error as HatanakaError;
 /// Errors that may rise in Parsing process
 #[derive(Debug, Error)]
 pub enum ParsingError {
+    #[error("i/o: input error")]
+    InputError(#[from] IoError),
     #[error("header line too short (invalid)")]
     HeaderLineTooShort,
     #[error("empty epoch")]
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index d9558cf..4e173bf 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -71,7 +71,7 @@ impl Header {
         let mut doris = DorisHeader::default();
 
         for l in reader.lines() {
-            let line = l.unwrap();
+            let line = l?;
             if line.len() < 60 {
                 continue; // --> invalid header content
             }
diff --git a/src/lib.rs b/src/lib.rs
index 1d33fbe..d6b7ee0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -887,7 +887,7 @@ impl Rinex {
             _ => ProductionAttributes::default(),
         };
 
-        let fd = File::open(path).expect("from_file: open error");
+        let fd = File::open(path)?;
 
         let mut reader = BufReader::new(fd);
         let mut rinex = Self::parse(&mut reader)?;
@@ -971,7 +971,7 @@ impl Rinex {
             _ => ProductionAttributes::default(),
         };
 
-        let fd = File::open(path).expect("from_file: open error");
+        let fd = File::open(path)?;
 
         let reader = GzDecoder::new(fd);
         let mut reader = BufReader::new(reader);
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 7357882..67ca509 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -181,7 +181,9 @@ impl Record {
         }
 
         // Iterate and consume, one line at a time
-        while let Ok(size) = reader.read_line(&mut line_buf) {
+        loop {
+            let size = reader.read_line(&mut line_buf)?;
+
             if size == 0 {
                 // reached EOS
                 // we might still have something to process prior exiting
-- 
2.43.0


From 903771748cc452794090a5df3d5319ef9d39abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 73/80] fix: errors at the end of a gzip file are returned

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d6b7ee0..8bb6ea6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1003,6 +1003,10 @@ impl Rinex {
         let compression = GzCompression::new(5);
         let mut writer = BufWriter::new(GzEncoder::new(fd, compression));
         self.format(&mut writer)?;
+
+        // write the end of the compressed stream
+        let encoder = writer.into_inner().map_err(|e| e.into_error())?;
+        encoder.finish()?;
         Ok(())
     }
 
-- 
2.43.0


From d54da833df0fe40bbc763e113bd1b32531f93de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 74/80] fix: written RINEX 2 observables do not depend on the
 hash seed

---
 src/observation/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observation/header.rs b/src/observation/header.rs
index 91fdbb5..c522b1c 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -89,7 +89,7 @@ impl HeaderFields {
     }
 
     fn format_v1_observables<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
-        if let Some((_, observables)) = self.codes.iter().next() {
+        if let Some((_, observables)) = self.codes.iter().min_by_key(|(c, _)| **c) {
             write!(w, "{:6}", observables.len())?;
 
             for (nth, observable) in observables.iter().enumerate() {
-- 
2.43.0


From fab206b783a06122c4a84e2daa3462a77c739691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 75/80] fix: compact RINEX without program line is not dated
 from the clock

---
 src/header/parsing.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 4e173bf..4818dae 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -99,7 +99,11 @@ impl Header {
             ///////////////////////////////////////////////////////
             } else if marker.contains("CRINEX VERS") {
                 let version = Version::from_str(content[..10].trim())?;
-                let crinex = CRINEX::default().with_version(version);
+                let crinex = CRINEX {
+                    version,
+                    prog: Default::default(),
+                    date: Epoch::from_gregorian_utc_at_midnight(2000, 1, 1),
+                };
 
                 observation.crinex = Some(crinex);
             } else if marker.contains("CRINEX PROG / DATE") {
-- 
2.43.0


From b66951e5427b035f6a2f2db33a075e3bf9509ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 76/80] fix: two digit years of compact RINEX program lines

---
 src/hatanaka/crinex.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index d31a138..6389810 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -53,10 +53,10 @@ impl CRINEX {
 
         writeln!(
             w,
-            "{:02}-{}-{} {:02}:{:02}     CRINEX PROG / DATE",
+            "{:02}-{}-{:02} {:02}:{:02}     CRINEX PROG / DATE",
             d,
             formatted_month,
-            y - 2000,
+            y.rem_euclid(100),
             hh,
             mm,
         )?;
@@ -96,7 +96,7 @@ impl CRINEX {
         let datetime_str = rem.split_at(20).0.trim();
 
         let mut i = 0;
-        let mut year = 2000_i32; // CRINEX: Y2000
+        let mut year = 2000_i32;
         let mut month = 0_u8;
         let mut day = 0_u8;
         let mut hour = 0_u8;
@@ -117,9 +117,14 @@ impl CRINEX {
                                 month = parse_formatted_month(parsed)?;
                             },
                             2 => {
-                                year += parsed
+                                // two digit year: 80-99 are in the 20th century
+                                year = match parsed
                                     .parse::<i32>()
-                                    .or(Err(ParsingError::DatetimeParsing))?;
+                                    .or(Err(ParsingError::DatetimeParsing))?
+                                {
+                                    yy if (80..100).contains(&yy) => 1900 + yy,
+                                    yy => 2000 + yy,
+                                };
                             },
                             _ => {},
                         }
-- 
2.43.0


From c4942442a5858b4c65b03c4fb3b6cdbc3a190982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 77/80] fix: records that cannot be written yet are refused
 instead of being left out

---
 src/error.rs                 | 2 ++
 src/navigation/formatting.rs | 9 +++------
 src/record/formatting.rs     | 2 +-
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index c043491..6055201 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -183,6 +183,8 @@ pub enum FormattingError {
     NoNavigationDefinition,
     #[error("nav: missing grid defs")]
     NoGridDefinition,
+    #[error("writing this type of record is not supported yet")]
+    NonSupportedRecord,
 }
 
 /// General error (processing, analysis..)
diff --git a/src/navigation/formatting.rs b/src/navigation/formatting.rs
index f3b7a6a..1aeb6fa 100644
--- a/src/navigation/formatting.rs
+++ b/src/navigation/formatting.rs
@@ -129,7 +129,7 @@ pub fn format<W: Write>(
                 .unique()
                 .sorted()
             {
-                if let Some((k, v)) = rec
+                if let Some((k, _)) = rec
                     .iter()
                     .filter(|(k, _v)| k.epoch == epoch && k.sv == sv && k.frmtype == frmtype)
                     .reduce(|k, _| k)
@@ -139,11 +139,8 @@ pub fn format<W: Write>(
                     } else {
                         format_epoch_v2v3(writer, k)?;
                     }
-                    if let Some(eph) = v.as_ephemeris() {
-                    } else if let Some(eop) = v.as_earth_orientation() {
-                    } else if let Some(sto) = v.as_system_time() {
-                    } else if let Some(ion) = v.as_ionosphere_model() {
-                    }
+                    // TODO: frame content
+                    return Err(FormattingError::NonSupportedRecord);
                 }
             }
         }
diff --git a/src/record/formatting.rs b/src/record/formatting.rs
index cef53fe..bc3938a 100644
--- a/src/record/formatting.rs
+++ b/src/record/formatting.rs
@@ -43,7 +43,7 @@ impl Record {
         } else if let Some(rec) = self.as_nav() {
             format_navigation(w, rec, header)
         } else {
-            Ok(())
+            Err(FormattingError::NonSupportedRecord)
         }
     }
 }
-- 
2.43.0


From 01e1fceb8cdb40efd6153562a47625d03d740d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:42 +0000
Subject: [PATCH 78/80] fix: compact RINEX description without date is not
 dated from the clock

---
 src/hatanaka/crinex.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index 6389810..6e066b4 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -179,7 +179,11 @@ impl Default for CRINEX {
 impl std::str::FromStr for CRINEX {
     type Err = ParsingError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let mut crinex = Self::default();
+        let mut crinex = Self {
+            version: Version::new(3, 0),
+            prog: Default::default(),
+            date: Epoch::from_gregorian_utc_at_midnight(2000, 1, 1),
+        };
 
         // We expect one line separator.
         // Content should follow standard odering (specs)
-- 
2.43.0


From de9f3d80d80507d024ff5f71408b25366d684586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:10 +0000
Subject: [PATCH 79/80] fix: IONEX map borders and altitude range go from
 minimum to maximum

---
 src/ionex/rinex/feature.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ionex/rinex/feature.rs b/src/ionex/rinex/feature.rs
index cf86641..49cc45a 100644
--- a/src/ionex/rinex/feature.rs
+++ b/src/ionex/rinex/feature.rs
@@ -29,9 +29,11 @@ impl Rinex {
     /// - (long_min, long_max): easternmost and westernmost longitude, in decimal degrees
     pub fn tec_map_borders(&self) -> Option<((f64, f64), (f64, f64))> {
         let ionex = self.header.ionex.as_ref()?;
+        // grids are described in either direction
+        let (lat, long) = (&ionex.grid.latitude, &ionex.grid.longitude);
         Some((
-            (ionex.grid.latitude.start, ionex.grid.latitude.end),
-            (ionex.grid.longitude.start, ionex.grid.longitude.end),
+            (lat.start.min(lat.end), lat.start.max(lat.end)),
+            (long.start.min(long.end), long.start.max(long.end)),
         ))
     }
 
@@ -68,7 +70,8 @@ impl Rinex {
     /// reflect actual content.
     pub fn ionex_altitude_range_km(&self) -> Option<(f64, f64)> {
         let header = self.header.ionex.as_ref()?;
-        Some((header.grid.height.start, header.grid.height.end))
+        let height = &header.grid.height;
+        Some((height.start.min(height.end), height.start.max(height.end)))
     }
 
     /// Designs an TEC isosurface iterator starting at lowest altitude,
-- 
2.43.0


From 817a148ecde073647c93fc69e2e81921d7259d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:44 +0000
Subject: [PATCH 80/80] fix: observables of a DORIS file are listed

---
 src/lib.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8bb6ea6..d4c626d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1241,16 +1241,14 @@ impl Rinex {
                     .unique()
                     .sorted(),
             )
-        // } else if self.record.as_doris().is_some() {
-        //     Box::new(
-        //         self.doris()
-        //             .flat_map(|(_, stations)| {
-        //                 stations
-        //                     .iter()
-        //                     .flat_map(|(_, observables)| observables.iter().map(|(k, _)| k))
-        //             })
-        //             .unique(),
-        //     )
+        } else if let Some(record) = self.record.as_doris() {
+            Box::new(
+                record
+                    .iter()
+                    .flat_map(|(_, obs)| obs.signals.keys().map(|k| &k.observable))
+                    .unique()
+                    .sorted(),
+            )
         } else {
             Box::new([].into_iter())
         }
-- 
2.43.0

