From ce8092f49dd4ba58e0ecedaeb460e56054c13712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:43 +0000
Subject: [PATCH 01/39] fix: reject tunneling requests whose declared size does
 not match the datagram

A total length below 10 underflowed (panic) and a body shorter than the
declared length was silently padded with zeros.
---
 src/packets/tunneling.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index 7b2ca92..a9b5f45 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -50,6 +50,7 @@ impl TunnelingRequest {
             Ok(size) => size,
             Err(e) => whatever!("Unable to read packet size {:?}", e),
         };
+        ensure_whatever!(size >= 10, "Packet size should be at least 10 instead of {}", size);
 
         match packet_reader.read_u8() {
             Ok(size) => {
@@ -74,7 +75,7 @@ impl TunnelingRequest {
         };
 
         let mut cemi = vec![0; size as usize - 10];
-        if let Err(e) = packet_reader.read(&mut cemi) {
+        if let Err(e) = packet_reader.read_exact(&mut cemi) {
             whatever!("Unable to read cemi part {:?}", e);
         }
 
-- 
2.43.0


From 98d40974f9df64d733ba0ed7a10e9b21567c365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:44 +0000
Subject: [PATCH 02/39] fix: reject truncated cEMI frames and do not overflow
 on additional infos

The u8 position counter overflowed (panic) for an additional info of 254
bytes or more, and short additional infos and values were padded with
zeros instead of being rejected.
---
 src/packets/emi.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index e606324..2115cf4 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -114,7 +114,7 @@ impl LDataInd {
 
         let mut value = vec![0; length as usize];
         if length > 0 {
-            if let Err(e) = reader.read(&mut value) {
+            if let Err(e) = reader.read_exact(&mut value) {
                 whatever!("Unable to read value of length {}, {:?}", length, e);
             }
         } else {
@@ -204,8 +204,8 @@ impl CEMI {
         };
 
         let mut additional_infos = Vec::new();
-        let mut position = 0;
-        while position < additional_infos_size {
+        let mut position = 0usize;
+        while position < additional_infos_size as usize {
             let additional_info_type: CEMIAdditionalInfoType = match packet_reader.read_u8() {
                 Ok(info_type) => match info_type.try_into() {
                     Ok(t) => t,
@@ -219,7 +219,7 @@ impl CEMI {
             };
 
             let mut additional_info = vec![0; additional_info_size as usize];
-            if let Err(e) = packet_reader.read(&mut additional_info) {
+            if let Err(e) = packet_reader.read_exact(&mut additional_info) {
                 whatever!("Unable to read additional info {:?}", e);
             }
 
@@ -227,7 +227,7 @@ impl CEMI {
                 info_type: additional_info_type,
                 value: additional_info,
             });
-            position += additional_info_size + 2;
+            position += additional_info_size as usize + 2;
         }
 
         let mut service_info = Vec::new();
-- 
2.43.0


From 976e24b1324916f2e8e34da80b4d33460fb5dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:33 +0000
Subject: [PATCH 03/39] fix: take the DIB structure length into account when
 parsing

A service families DIB with a length below 2 underflowed (panic), and a
manufacturer data DIB consumed 4 bytes more than it contains.
---
 src/packets/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 92a0169..96868c8 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1072,6 +1072,7 @@ impl SupportedServiceFamiliesDIB {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
+        ensure_whatever!(structure_length >= 2, "Service families DIB length should be at least 2 instead of {}", structure_length);
         let mut service_families = Vec::new();
         for _ in 0..(structure_length - 2) / 2 {
             // -2 because of length and type
@@ -1274,7 +1275,9 @@ impl ManufacturerDataDIB {
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
         let knx_manufacturer_id = packet_reader.read_u16::<BigEndian>().whatever_context("Unable to read knx manufacturer id")?;
 
-        let mut manufacturer_specific_data = vec![0; structure_length as usize];
+        // 2 bytes for length and type and 2 bytes for the manufacturer id
+        ensure_whatever!(structure_length >= 4, "Manufacturer data DIB length should be at least 4 instead of {}", structure_length);
+        let mut manufacturer_specific_data = vec![0; structure_length as usize - 4];
         packet_reader
             .read_exact(&mut manufacturer_specific_data)
             .whatever_context("Unable to read manufacturer specific data")?;
-- 
2.43.0


From 4dc1a6768077274d222e1faed2d0da50970f295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:34 +0000
Subject: [PATCH 04/39] fix: KNX addresses DIB contains two byte individual
 addresses

The addresses were handled as four byte IPv4 addresses, a DIB could not
be parsed back (03.08.02 section 7.5.4.6), and a structure length below 4
underflowed (panic).
---
 src/packets/core.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index 96868c8..c102866 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -1214,41 +1214,40 @@ impl IpCurrentConfigDIB {
 pub struct KNXAddressesDIB {
     pub structure_length: u8,
     pub description_type_code: DescriptionTypeCode,
-    pub knx_individual_address: Ipv4Addr,
-    pub additional_individual_addresses: Vec<Ipv4Addr>,
+    pub knx_individual_address: IndividualAddress,
+    pub additional_individual_addresses: Vec<IndividualAddress>,
 }
 
 impl KNXAddressesDIB {
     pub fn packet(&self) -> Vec<u8> {
         let mut packet = Vec::new();
-        packet.extend_from_slice(&self.knx_individual_address.octets());
+        packet.write_u16::<BigEndian>(self.knx_individual_address.to_u16()).unwrap();
         for address in &self.additional_individual_addresses {
-            packet.extend_from_slice(&address.octets());
+            packet.write_u16::<BigEndian>(address.to_u16()).unwrap();
         }
         packet
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>, structure_length: u8) -> Result<Self, Whatever> {
-        let mut knx_individual_address = [0; 4];
-        packet_reader
-            .read_exact(&mut knx_individual_address)
+        ensure_whatever!(structure_length >= 4, "KNX addresses DIB length should be at least 4 instead of {}", structure_length);
+        let knx_individual_address = packet_reader
+            .read_u16::<BigEndian>()
             .whatever_context("Unable to read knx individual address")?;
 
         let mut additional_individual_addresses = Vec::new();
 
         for _ in 0..(structure_length - 4) / 2 {
-            // - 1 byte structure length - 2 byte description type code  - 2 bytes knx individual address
-            let mut additional_individual_address = [0; 4];
-            packet_reader
-                .read_exact(&mut additional_individual_address)
+            // - 1 byte structure length - 1 byte description type code  - 2 bytes knx individual address
+            let additional_individual_address = packet_reader
+                .read_u16::<BigEndian>()
                 .whatever_context("Unable to read additional individual address")?;
-            additional_individual_addresses.push(Ipv4Addr::from(additional_individual_address));
+            additional_individual_addresses.push(IndividualAddress::from_u16(additional_individual_address));
         }
 
         Ok(Self {
             structure_length,
             description_type_code: DescriptionTypeCode::KNXAddresses,
-            knx_individual_address: Ipv4Addr::from(knx_individual_address),
+            knx_individual_address: IndividualAddress::from_u16(knx_individual_address),
             additional_individual_addresses,
         })
     }
-- 
2.43.0


From bcfdaf3f63b50f86661ec3e99bf655f2c2cb8b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:35 +0000
Subject: [PATCH 05/39] fix: write the DIB headers in search responses

The length and type of both DIBs were missing, so that the packet could
not be parsed.
---
 src/packets/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index c102866..dd0be28 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -657,8 +657,8 @@ impl SearchResponse {
         let mut packet = vec![0x06, 0x10, 0x02, 0x02];
 
         let mut control_endpoint_packet = self.control_endpoint.packet();
-        let mut device_hardware_packet = self.device_hardware.packet();
-        let mut supported_service_families_packet = self.supported_service_families.packet();
+        let mut device_hardware_packet = DIB::DeviceInformation(self.device_hardware.clone()).packet();
+        let mut supported_service_families_packet = DIB::SupportedServiceFamilies(self.supported_service_families.clone()).packet();
         let size = packet.len() + 2 + control_endpoint_packet.len() + device_hardware_packet.len() + supported_service_families_packet.len();
 
         packet.write_u16::<BigEndian>(size as u16).unwrap();
-- 
2.43.0


From 1fccf736d0c2ede74ea697bef900ce78a7649643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:36 +0000
Subject: [PATCH 06/39] fix: count the padding of a DIB in its structure length

The padding byte was written after the structure, whose length stayed odd.
---
 src/packets/core.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index dd0be28..b57378d 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -844,14 +844,14 @@ impl DIB {
             Self::ManufacturerData(manufacturer_data) => (DescriptionTypeCode::ManufacturerData, manufacturer_data.packet()),
         };
 
-        let structure_length = 2 + data_packet.len();
+        // 7.5.4.1
+        // Structure length must be even. Add a padding of 0x00 if necessary.
+        let padding = data_packet.len() % 2;
+        let structure_length = 2 + data_packet.len() + padding;
         packet.write_u8(structure_length as u8).unwrap();
         packet.write_u8(type_code as u8).unwrap();
         packet.extend_from_slice(&data_packet);
-
-        // 7.5.4.1
-        // Structure length must be even. Add a padding of 0x00 if necessary.
-        if structure_length % 2 != 0 {
+        if padding != 0 {
             packet.write_u8(0x00).unwrap();
         }
 
-- 
2.43.0


From f31d476c762e8c92f4344fa6e752220b4feaf300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:37 +0000
Subject: [PATCH 07/39] fix: write the total length of connection responses

The header had a one byte length, so that the packet could not be parsed.
---
 src/packets/core.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index b57378d..f3d4dd0 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -293,9 +293,15 @@ impl ConnectionResponse {
     }
 
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x02, 0x06, 0x08, self.communication_channel_id, self.status];
-        packet.extend_from_slice(&self.data_endpoint.packet());
-        packet.extend_from_slice(&self.crd.packet());
+        let mut packet = vec![0x06, 0x10, 0x02, 0x06];
+        let data_endpoint_packet = self.data_endpoint.packet();
+        let crd_packet = self.crd.packet();
+        let size = packet.len() + 4 + data_endpoint_packet.len() + crd_packet.len();
+        packet.write_u16::<BigEndian>(size as u16).unwrap();
+        packet.write_u8(self.communication_channel_id).unwrap();
+        packet.write_u8(self.status).unwrap();
+        packet.extend_from_slice(&data_endpoint_packet);
+        packet.extend_from_slice(&crd_packet);
         packet
     }
 }
-- 
2.43.0


From 556bb5b6d1812549dd83166f68e986c49aeac8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:38 +0000
Subject: [PATCH 08/39] fix: encode feature responses as such

The service code was the one of a feature set and the status was lost.
---
 src/packets/tunneling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packets/tunneling.rs b/src/packets/tunneling.rs
index a9b5f45..3da6a85 100644
--- a/src/packets/tunneling.rs
+++ b/src/packets/tunneling.rs
@@ -207,13 +207,13 @@ pub struct FeatureResp {
 
 impl FeatureResp {
     pub fn packet(&self) -> Vec<u8> {
-        let mut packet = vec![0x06, 0x10, 0x04, 0x24, 0, 0x0d];
+        let mut packet = vec![0x06, 0x10, 0x04, 0x23, 0, 0x0d];
         packet.write_u8(4).unwrap();
         packet.write_u8(self.communication_channel_id).unwrap();
         packet.write_u8(self.sequence_nr).unwrap();
         packet.write_u8(0).unwrap();
         packet.write_u8(self.feature as u8).unwrap();
-        packet.write_u8(0).unwrap();
+        packet.write_u8(self.status).unwrap();
         packet.write_u8(self.value).unwrap();
         packet
     }
-- 
2.43.0


From 8f5532efebcb7c7bb3208b813fe096a9d1213b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 09/39] fix: parse the header of disconnect requests

Every disconnect request was rejected, because its header was not read.
---
 src/packets/core.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index f3d4dd0..d8566a1 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -482,13 +482,12 @@ impl DisconnectRequest {
     }
 
     pub fn from_packet(packet_reader: &mut Cursor<&[u8]>) -> Result<Self, Whatever> {
-        let header_size = match packet_reader.read_u8() {
-            Ok(header_size) => {
-                ensure_whatever!(header_size >= 8, "Header size should be at least 8 instead of {}", header_size);
-                header_size
-            }
-            Err(e) => whatever!("Unable to read header size {:?}", e),
-        };
+        let header = KnxNetIpHeader::from_packet(packet_reader)?;
+        ensure_whatever!(
+            header.service_type_identifier == 0x0209,
+            "Disconnect request should be 0x0209 instead of {:2X}",
+            header.service_type_identifier
+        );
 
         let communication_channel_id = match packet_reader.read_u8() {
             Ok(communication_channel_id) => communication_channel_id,
-- 
2.43.0


From 80645dc3c114a5a2dc7fbb72001b58ac56bbba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:41 +0000
Subject: [PATCH 10/39] fix: pad the device friendly name to its 30 bytes

Names shorter than 30 bytes were rejected as too long, and the padding
was returned as part of the name.
---
 src/packets/core.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index d8566a1..b24530b 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -961,13 +961,12 @@ impl DeviceInformationDIB {
         mac_address: [u8; 6],
         friendly_name: String,
     ) -> Result<Self, Whatever> {
-        let friendly_name = ISO_8859_1
+        let mut friendly_name = ISO_8859_1
             .encode(&friendly_name, EncoderTrap::Strict)
             .whatever_context("Unable to encode device friendly name")?;
-        let friendly_name = friendly_name
-            .try_into()
-            .map_err(|_err| "")
-            .whatever_context("Encoded friendly name length exceeds 30 bytes")?;
+        ensure_whatever!(friendly_name.len() <= 30, "Encoded friendly name length exceeds 30 bytes");
+        friendly_name.resize(30, 0x00);
+        let friendly_name = friendly_name.try_into().expect("Friendly name is 30 bytes long");
 
         Ok(Self {
             structure_length,
@@ -985,8 +984,10 @@ impl DeviceInformationDIB {
 
     /// Device friendly name decoded from ISO 8859-1
     pub fn friendly_name(&self) -> Result<String, Whatever> {
+        // Unused bytes are filled with 0x00
+        let length = self.friendly_name.iter().rposition(|b| *b != 0).map_or(0, |last| last + 1);
         ISO_8859_1
-            .decode(&self.friendly_name, DecoderTrap::Strict)
+            .decode(&self.friendly_name[..length], DecoderTrap::Strict)
             .whatever_context("Unable to decode friendly name")
     }
 
-- 
2.43.0


From c2c8aa2e20c0363e85c193a57d171be7147a59f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:15 +0000
Subject: [PATCH 11/39] fix: two level group addresses have 5 bits for main and
 11 bits for sub

1/2 was sent as 0/1/2, and sub groups above 255 could not be used.
---
 src/packets/addresses.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/packets/addresses.rs b/src/packets/addresses.rs
index 6676108..115fdc5 100644
--- a/src/packets/addresses.rs
+++ b/src/packets/addresses.rs
@@ -21,7 +21,7 @@ impl KnxAddress {
         Self::Group1Level(Group1LevelAddress { main })
     }
 
-    pub fn group_2_level(main: u8, sub: u8) -> Self {
+    pub fn group_2_level(main: u8, sub: u16) -> Self {
         Self::Group2Level(Group2LevelAddress { main, sub })
     }
 
@@ -64,7 +64,7 @@ impl TryFrom<&str> for KnxAddress {
                     Err(e) => whatever!("Unable to parse main address {:?}", e),
                 };
                 let sub = parts.get(1).unwrap();
-                let sub = match sub.parse::<u8>() {
+                let sub = match sub.parse::<u16>() {
                     Ok(sub) => sub,
                     Err(e) => whatever!("Unable to parse sub address {:?}", e),
                 };
@@ -207,7 +207,7 @@ impl Group3LevelAddress {
 
 pub struct Group2LevelAddress {
     main: u8,
-    sub: u8,
+    sub: u16,
 }
 
 impl fmt::Debug for Group2LevelAddress {
@@ -219,8 +219,8 @@ impl fmt::Debug for Group2LevelAddress {
 impl Group2LevelAddress {
     pub fn to_u16(&self) -> u16 {
         let mut addr = 0u16;
-        addr |= (self.main as u16) << 8_u16;
-        addr |= (self.sub) as u16;
+        addr |= (self.main as u16) << 11_u16;
+        addr |= self.sub;
 
         addr
     }
-- 
2.43.0


From d00be7722af170814d2b85dd7316b2130656ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:16 +0000
Subject: [PATCH 12/39] fix: reject addresses which do not fit in 16 bits

Out of range parts were silently mapped to another address, for example
32/0/1 to 0/0/1 and 0/8/0 to 1/0/0.
---
 src/packets/addresses.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/packets/addresses.rs b/src/packets/addresses.rs
index 115fdc5..f5e0b03 100644
--- a/src/packets/addresses.rs
+++ b/src/packets/addresses.rs
@@ -1,6 +1,6 @@
 use std::fmt;
 
-use snafu::{whatever, Whatever};
+use snafu::{ensure_whatever, whatever, Whatever};
 
 // KNX Address
 //
@@ -68,6 +68,7 @@ impl TryFrom<&str> for KnxAddress {
                     Ok(sub) => sub,
                     Err(e) => whatever!("Unable to parse sub address {:?}", e),
                 };
+                ensure_whatever!(main < 32 && sub < 2048, "Group address {:?} is out of range", value);
 
                 Ok(Self::group_2_level(main, sub))
             } else if parts.len() == 3 {
@@ -86,6 +87,7 @@ impl TryFrom<&str> for KnxAddress {
                     Ok(sub) => sub,
                     Err(e) => whatever!("Unable to parse sub address {:?}", e),
                 };
+                ensure_whatever!(main < 32 && mid < 8, "Group address {:?} is out of range", value);
 
                 Ok(Self::group_3_level(main, mid, sub))
             } else {
@@ -144,6 +146,7 @@ impl TryFrom<&str> for IndividualAddress {
             Ok(a) => a,
             Err(e) => whatever!("Unable to parse address value {:?}, error {:?}", parts.get(2), e),
         };
+        ensure_whatever!(area < 16 && line < 16, "Individual address {:?} is out of range", value);
         Ok(Self { area, line, address })
     }
 }
@@ -177,8 +180,8 @@ impl TryFrom<&str> for Group3LevelAddress {
         }
 
         match (parts[0].parse::<u8>(), parts[1].parse::<u8>(), parts[2].parse::<u8>()) {
-            (Ok(main), Ok(middle), Ok(sub)) => Ok(Self { main, middle, sub }),
-            _ => whatever!("Unable to parse parts in u8"),
+            (Ok(main), Ok(middle), Ok(sub)) if main < 32 && middle < 8 => Ok(Self { main, middle, sub }),
+            _ => whatever!("Unable to parse parts in range"),
         }
     }
 }
-- 
2.43.0


From 7421d681d94be041479f23841f46c8233d98c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:17 +0000
Subject: [PATCH 13/39] fix: two byte float conversions at the limits of
 mantissa and exponent

20.48 was encoded as 0, -0.004 as -20.48, and values out of range as
arbitrary bytes or in an endless loop; exponents from 8 to 15 were decoded
as smaller ones and the mantissa -2048 overflowed (panic).
---
 src/dp_types.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 89cb7ed..c07b9d2 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -226,20 +226,23 @@ fn _float_to_bytes(value: f32) -> Vec<u8> {
 // https://github.com/calimero-project/calimero-core/blob/d6fee46dbfeda9ddc90e77e25444dc1b1dd98f82/src/tuwien/auto/calimero/dptxlator/DPTXlator2ByteFloat.java#L300
 //
 fn calimero_float_to_bytes(v: f32) -> Vec<u8> {
-    let mut v = v * 100.0;
+    // Saturate outside of the range of the format
+    //
+    let mut v = (v * 100.0).clamp(-67108864.0, 67076096.0);
     let mut exp = 0;
     while v < -2048.0 {
         v /= 2.0;
         exp += 1;
     }
-    while v > 2048.0 {
+    while v > 2047.0 {
         v /= 2.0;
         exp += 1;
     }
 
-    let m = v.round() as i16 & 0x7ff;
+    let v = v.round() as i16;
+    let m = v & 0x7ff;
     let mut msb: u8 = (exp << 3 | m >> 8) as u8;
-    if v < 0.0 {
+    if v < 0 {
         msb |= 0x80;
     }
     let lsb = (m & 0xff) as u8;
@@ -251,20 +254,14 @@ fn bytes_to_float(bytes: &[u8]) -> Result<f32, Whatever> {
         Ok(v) => v,
         Err(e) => whatever!("Wrong bytes count, {:?}", e),
     });
-    let sign = if value & 0x8000 > 0 { -1f32 } else { 1f32 };
-    let mut exp = ((value & 0b0111_1000_0000_0000) >> 11) as i16;
-    if (exp & 8) > 0 {
-        exp -= 1;
-        exp ^= 0xf;
-        exp += -1;
-    }
-    let mut mantissa = value & 0x07ff;
-    if sign < 0.0 {
-        mantissa -= 1;
-        mantissa ^= 0x7ff;
-    }
-    let mantissa: f32 = mantissa as f32 * sign;
-    Ok((0.01 * mantissa) * (1 << exp) as f32)
+    // Exponent is unsigned, mantissa is in two's complement with the sign in the most significant bit
+    //
+    let exp = (value & 0b0111_1000_0000_0000) >> 11;
+    let mut mantissa = (value & 0x07ff) as i16;
+    if value & 0x8000 > 0 {
+        mantissa -= 0x800;
+    }
+    Ok((0.01 * mantissa as f32) * (1 << exp) as f32)
 }
 
 pub struct PdtKnxByte {
-- 
2.43.0


From e6f19e987f61e4a40933b2d9ce4939030771c392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:18 +0000
Subject: [PATCH 14/39] fix: byte values are not small

Writing a PdtKnxByte panicked because of a todo.
---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index c07b9d2..677198d 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -297,7 +297,7 @@ impl Pdt<u8> for PdtKnxByte {
     }
 
     fn is_small(&self) -> bool {
-        todo!()
+        false
     }
 }
 
-- 
2.43.0


From 37f9002782fa1ca8fbbb3338e76198c182b1d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:19 +0000
Subject: [PATCH 15/39] fix: percent_v16 overflow

Values beyond 327% panicked or changed their sign.
---
 src/dp_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 677198d..96a5907 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -120,7 +120,7 @@ impl PdtKnxInt {
         Self {
             code: "8.010".to_string(),
             unit: "%".to_string(),
-            value: value * 100,
+            value: value.saturating_mul(100),
         }
     }
 }
-- 
2.43.0


From 5e3e0826b096a8d9e9a510a115a8b253392cda52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:20 +0000
Subject: [PATCH 16/39] fix: datapoint type codes of parsed 4 byte and dimming
 values

---
 src/dp_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 96a5907..976174e 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -367,7 +367,7 @@ impl Pdt<u32> for PdtKnxULong {
         let mut reader = Cursor::new(b);
         let value = reader.read_u32::<BigEndian>().with_whatever_context(|e| "Unable to get 4 bytes {e}")?;
         Ok(Self {
-            code: "8.x".to_string(),
+            code: "12.x".to_string(),
             value,
         })
     }
@@ -450,7 +450,7 @@ impl Pdt<u8> for PdtKnxB1U3 {
     {
         let value = b.get(0).with_whatever_context(|| "Should have at least one byte")?;
         Ok(Self {
-            code: "0.x".to_string(),
+            code: "3.x".to_string(),
             bit: (value & 8) > 0,
             step: value & 0b111,
         })
-- 
2.43.0


From 2f11b57c4ac53b2898b997a5eb348af679a52e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 17/39] fix: 0% is 0 and 100% is 255 in DPT 5.001

scaling(0.0) was sent as 1, so that a lamp could not be dimmed to off, and
all received values were off by up to 0.4%.
---
 src/dp_types.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/dp_types.rs b/src/dp_types.rs
index 976174e..6f9c035 100644
--- a/src/dp_types.rs
+++ b/src/dp_types.rs
@@ -55,15 +55,12 @@ impl PdtKnxScaledValue {
         Self {
             code: "5.001".to_string(),
             unit: "%".to_string(),
-            value: (percent * 2.54 + 1.0).round() as u8,
+            value: (percent * 2.55).round() as u8,
         }
     }
 
     pub fn get_value(&self) -> f32 {
-        if self.value == 0 {
-            return 0.0;
-        }
-        (self.value - 1) as f32 / 2.54
+        self.value as f32 / 2.55
     }
 }
 
-- 
2.43.0


From 4a66e0cf15700c2bfa05335cc56c69c2b6269ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:23 +0000
Subject: [PATCH 18/39] fix: small group write without data panicked

---
 src/packets/apdu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packets/apdu.rs b/src/packets/apdu.rs
index 2d50caf..ea489d6 100644
--- a/src/packets/apdu.rs
+++ b/src/packets/apdu.rs
@@ -28,7 +28,7 @@ impl APDU {
     }
 
     pub fn group_value_write(data: Vec<u8>, small: bool) -> Self {
-        let data = if small { APDUData::Small(data[0]) } else { APDUData::Big(data) };
+        let data = if small { APDUData::Small(*data.first().unwrap_or(&0)) } else { APDUData::Big(data) };
         Self {
             apci: APCI::a_group_value_write(),
             data,
-- 
2.43.0


From 0c6df720380739b5d65e670d7e4c3ed575053b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:06 +0000
Subject: [PATCH 19/39] fix: send data which does not fit in a standard frame
 as extended frame

A standard frame has at most 15 bytes after the TPCI; longer ones were
marked as standard, and a value of 254 bytes overflowed (panic).
---
 src/packets/emi.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 2115cf4..38d496f 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -161,8 +161,13 @@ impl LDataReqMessage {
     }
 
     pub fn packet(&self) -> Vec<u8> {
+        let mut tpdu_packet = self.tpdu.packet();
+        let length = tpdu_packet.len() - 1; // Count of APCI values
+
         let mut control = 0u8;
-        control |= 1 << 7; // Frame type standard
+        if length <= 15 {
+            control |= 1 << 7; // Frame type standard, longer data needs an extended frame
+        }
         control |= 1 << 5; // No repetition on error
         control |= 1 << 4; // Domain broadcast
         control |= (self.priority & 0x3) << 2;
@@ -173,8 +178,7 @@ impl LDataReqMessage {
         // packet.write_u16::<BigEndian>(0).unwrap();
         packet.write_u16::<BigEndian>(self.dest_address.to_u16()).unwrap();
 
-        let mut tpdu_packet = self.tpdu.packet();
-        packet.write_u8(tpdu_packet.len() as u8 - 1).unwrap(); // Count of APCI values
+        packet.write_u8(length as u8).unwrap();
         packet.append(&mut tpdu_packet);
 
         packet
-- 
2.43.0


From ee02ba0cbfc444d395df030ed9ace3e9d19b36c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:27 +0000
Subject: [PATCH 20/39] fix: parse exactly the received datagram

Datagrams were cut at 100 bytes and shorter ones were parsed together
with the zeros behind them, so that truncated frames were accepted.
---
 src/transport/udp.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 9142dea..317a3f3 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -23,6 +23,10 @@ use crate::packets::{
     tunneling::{TunnelingAck, TunnelingRequest},
 };
 
+// A tunneled extended frame with all its additional infos is about 530 bytes long
+//
+const MAX_DATAGRAM_SIZE: usize = 1024;
+
 struct ConnectionData {
     communication_channel_id: u8,
     control_endpoint: HPAI,
@@ -388,9 +392,11 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
         whatever!("Unable to send connection request {:?}", e);
     }
 
-    let mut resp = vec![0; 100];
-    if let Err(e) = timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
-        whatever!("Target device does not respond {:?}", e);
+    let mut resp = vec![0; MAX_DATAGRAM_SIZE];
+    match timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
+        Ok(Ok(count)) => resp.truncate(count),
+        Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
+        Err(e) => whatever!("Target device does not respond {:?}", e),
     }
     debug!("Connection response {:0x?}", resp);
 
@@ -406,8 +412,9 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
 
 pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
     loop {
-        let mut data = vec![0; 100];
+        let mut data = vec![0; MAX_DATAGRAM_SIZE];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
+        data.truncate(count);
 
         if count > 0 {
             let resp = parse_response(data)?;
-- 
2.43.0


From 4e9688ffa9b141eb7980716d7ebede4f0b801f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:29 +0000
Subject: [PATCH 21/39] fix: heart beats lost the telegram which was being
 passed on

Each heart beat dropped the receive future. If it was waiting for space in
the channel, its already acknowledged telegram was lost.
---
 src/transport/udp.rs         | 7 ++++++-
 src/transport/udp_monitor.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 317a3f3..1f7c48d 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -153,9 +153,14 @@ impl UdpTransport {
                         *connection_data = Some(ConnectionData::from_connection_response(connection));
                     }
 
+                    // The heart beat must not cancel it, it could be passing on an already acknowledged message
+                    //
+                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    tokio::pin!(recv_from_knx_device);
+
                     'recv: loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = &mut recv_from_knx_device => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     debug!("Exit from reconnection loop");
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 573c883..bbb709c 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -119,9 +119,14 @@ impl UdpMonitorTransport {
                         *on_connection = active_on_connection;
                     }
 
+                    // The heart beat must not cancel it, it could be passing on an already acknowledged message
+                    //
+                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    tokio::pin!(recv_from_knx_device);
+
                     loop {
                         tokio::select! {
-                            resp = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone()) => {
+                            resp = &mut recv_from_knx_device => {
                                 info!("Recieve messages from knx device task exited with result {:?}", resp);
                                 if resp.is_ok() {
                                     break 'main;
-- 
2.43.0


From 7ce2223b6563e0121e513086b78513eb117eaa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:19 +0000
Subject: [PATCH 22/39] fix: requests which could not be sent used up a
 sequence number

The gap made the device discard all following requests of the connection.
Number and channel are now also taken from the same connection.
---
 src/transport/udp.rs         | 31 ++++++++++++++++---------------
 src/transport/udp_monitor.rs | 31 ++++++++++++++++---------------
 2 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 1f7c48d..bc1e5ed 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -202,17 +202,6 @@ impl UdpTransport {
         })
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
-        match self.connection_data.lock().await.as_mut() {
-            Some(data) => {
-                let num = data.sequence_nr;
-                data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
-            }
-            None => whatever!("Disconnected from knx device, NR"),
-        }
-    }
-
     async fn get_communication_channel_id(&self) -> Result<u8, Whatever> {
         match self.connection_data.lock().await.as_ref() {
             Some(data) => Ok(data.communication_channel_id),
@@ -243,8 +232,12 @@ impl UdpTransport {
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.get_communication_channel_id().await?, sequence_nr, req);
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device, NR"),
+        };
+        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
@@ -253,18 +246,26 @@ impl UdpTransport {
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        // Only sent requests use a sequence number
+        //
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.get_communication_channel_id().await?, sequence_nr, feature, value);
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device, NR"),
+        };
+        let req = FeatureSet::new(data.communication_channel_id, data.sequence_nr, feature, value);
         debug!("FeatureSet request {:?}", req);
         let req = req.packet();
         debug!("Raw tunnel request: {:02x?}", req);
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index bbb709c..4e2e6f1 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -189,36 +189,34 @@ impl UdpMonitorTransport {
         }
     }
 
-    async fn get_next_sequence_nr(&self) -> Result<u8, Whatever> {
-        match self.connection_data.lock().await.as_mut() {
-            Some(data) => {
-                let num = data.sequence_nr;
-                data.sequence_nr = data.sequence_nr.wrapping_add(1);
-                Ok(num)
-            }
-            None => whatever!("Disconnected from knx device, NR"),
-        }
-    }
-
     pub async fn is_connected(&self) -> bool {
         self.connection_data.lock().await.is_some()
     }
 
     pub async fn set_feature(&self, feature: KnxIpFeature, value: u8) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let req = FeatureSet::new(self.communication_channel_id().await?, sequence_nr, feature, value);
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device, NR"),
+        };
+        let req = FeatureSet::new(data.communication_channel_id, data.sequence_nr, feature, value);
         debug!("FeatureSet request {:?}", req);
         let req = req.packet();
         debug!("Raw tunnel request: {:02x?}", req);
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
-        let sequence_nr = self.get_next_sequence_nr().await?;
-        let tunneled_req = TunnelingRequest::new(self.communication_channel_id().await?, sequence_nr, req);
+        let mut connection_data = self.connection_data.lock().await;
+        let data = match connection_data.as_mut() {
+            Some(data) => data,
+            None => whatever!("Disconnected from knx device, NR"),
+        };
+        let tunneled_req = TunnelingRequest::new(data.communication_channel_id, data.sequence_nr, req);
         debug!("TunnelingRequest {:?}", tunneled_req);
         let req = tunneled_req.packet();
         debug!("======================");
@@ -227,6 +225,9 @@ impl UdpMonitorTransport {
         if let Err(e) = self.socket.send(&req).await {
             whatever!("Unable to send request {:?}", e);
         }
+        // Only sent requests use a sequence number
+        //
+        data.sequence_nr = data.sequence_nr.wrapping_add(1);
         Ok(())
     }
 
-- 
2.43.0


From 2b588b9f98662914ab87d37f9d67ef35157cc58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:32 +0000
Subject: [PATCH 23/39] fix: control responses were stolen by, or stolen from,
 the receive task

get_connection_status and UdpMonitor::disconnect called recv on the socket
of the receive task: either they waited forever, holding the lock of the
client, or they consumed a telegram. UdpClient::disconnect returned an error
after a successful disconnection and waited forever without one. The receive
task now hands over these responses, the wait ends after 10 seconds, and a
closed connection is not reported as connected anymore.
---
 src/packets/core.rs          |  4 +-
 src/transport/udp.rs         | 74 ++++++++++++++++++++++++++++--------
 src/transport/udp_monitor.rs | 25 +++++++-----
 3 files changed, 75 insertions(+), 28 deletions(-)

diff --git a/src/packets/core.rs b/src/packets/core.rs
index b24530b..1691042 100644
--- a/src/packets/core.rs
+++ b/src/packets/core.rs
@@ -396,7 +396,7 @@ impl ConnectionstateRequest {
 pub const E_CONNECTION_ID: u8 = 0x21;
 pub const E_DATA_CONNECTION: u8 = 0x26;
 pub const E_KNX_CONNECTION: u8 = 0x27;
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct ConnectionstateResponse {
     pub communication_channel_id: u8,
     pub status: u8,
@@ -524,7 +524,7 @@ impl DisconnectRequest {
 // Disconnect Response
 // 03.08.02 Core section 7.8.6
 //
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct DisconnectResponse {
     pub communication_channel_id: u8,
     pub status: u8,
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index bc1e5ed..b716ad7 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -5,13 +5,13 @@ use std::sync::Arc;
 use std::time::Duration;
 use std::{io::Cursor, net::SocketAddr};
 use tokio::sync::mpsc::Sender;
-use tokio::time::{interval, sleep, timeout};
+use tokio::time::{interval, sleep, timeout, timeout_at, Instant};
 use tokio::{io, select};
 
 use log::{debug, info, trace, warn};
 use snafu::{ensure_whatever, whatever, ResultExt, Snafu, Whatever};
 use tokio::net::{ToSocketAddrs, UdpSocket};
-use tokio::sync::{mpsc, Mutex};
+use tokio::sync::{broadcast, mpsc, Mutex};
 
 use crate::packets::tunneling::KnxIpFeature;
 use crate::packets::{
@@ -27,6 +27,10 @@ use crate::packets::{
 //
 const MAX_DATAGRAM_SIZE: usize = 1024;
 
+// 03_08_02 Core section 5.4
+//
+pub(crate) const CONTROL_RESPONSE_TIMEOUT: Duration = Duration::from_secs(10);
+
 struct ConnectionData {
     communication_channel_id: u8,
     control_endpoint: HPAI,
@@ -101,10 +105,20 @@ pub enum TunnelingResponse {
     DisconnectRequest(DisconnectRequest),
 }
 
+// Responses on the control endpoint, all datagrams are received by the task
+// started in connect
+//
+#[derive(Debug, Clone)]
+pub(crate) enum ControlResponse {
+    Connectionstate(ConnectionstateResponse),
+    Disconnect(DisconnectResponse),
+}
+
 struct UdpTransport {
     socket: Arc<MyUdpSocket>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
+    control_tx: broadcast::Sender<ControlResponse>,
 }
 
 impl UdpTransport {
@@ -125,9 +139,11 @@ impl UdpTransport {
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
         let (from_knx_tx, rx) = mpsc::channel(100);
+        let (control_tx, _) = broadcast::channel(16);
 
         tokio::spawn({
             let socket = socket.clone();
+            let control_tx = control_tx.clone();
             let connection_data = connection_data.clone();
 
             async move {
@@ -155,7 +171,7 @@ impl UdpTransport {
 
                     // The heart beat must not cancel it, it could be passing on an already acknowledged message
                     //
-                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone());
                     tokio::pin!(recv_from_knx_device);
 
                     'recv: loop {
@@ -191,6 +207,7 @@ impl UdpTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task exited");
             }
         });
@@ -199,6 +216,7 @@ impl UdpTransport {
             socket,
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
+            control_tx,
         })
     }
 
@@ -218,17 +236,20 @@ impl UdpTransport {
 
     pub async fn get_connectionstate(&self) -> TransportResult<ConnectionstateResponse> {
         let req = ConnectionstateRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?);
+        let mut control_rx = self.control_tx.subscribe();
         if let Err(e) = self.socket.send(&req.packet()).await {
             whatever!("Unable to send connection state request {:?}", e);
         };
 
-        let mut resp = vec![0; 100];
-        if let Err(e) = self.socket.recv(&mut resp).await {
-            whatever!("Connectionstate not responded {:?}", e);
+        let deadline = Instant::now() + CONTROL_RESPONSE_TIMEOUT;
+        loop {
+            match timeout_at(deadline, control_rx.recv()).await {
+                Ok(Ok(ControlResponse::Connectionstate(resp))) => return Ok(resp),
+                Ok(Ok(_)) => (),
+                Ok(Err(e)) => whatever!("Connectionstate not responded {:?}", e),
+                Err(e) => whatever!("Connectionstate not responded {:?}", e),
+            }
         }
-        debug!("Connectiostate response {:0x?}", resp);
-        let mut cursor = Cursor::new(resp.as_slice());
-        Ok(ConnectionstateResponse::from_packet(&mut cursor)?)
     }
 
     pub async fn tunnel_req(&self, req: Vec<u8>) -> Result<(), Whatever> {
@@ -272,13 +293,15 @@ impl UdpTransport {
     pub async fn disconnect(&self) -> Result<(), Whatever> {
         let req = DisconnectRequest::new(self.get_communication_channel_id().await?, self.get_control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", self.get_communication_channel_id().await?);
-        self.socket.send(&req).await.expect("Unable to send request");
-
-        let mut rx = self.rx.lock().await;
-        match rx.recv().await {
-            Some(_resp) => Ok(()),
-            None => whatever!("Transport closed before disconnection response"),
+        let mut control_rx = self.control_tx.subscribe();
+        if let Err(e) = self.socket.send(&req).await {
+            whatever!("Unable to send disconnect request {:?}", e);
         }
+
+        let resp = wait_disconnect_response(&mut control_rx).await?;
+        *self.connection_data.lock().await = None;
+        ensure_whatever!(resp.status == 0, "Disconnect response with error {}", resp.status);
+        Ok(())
     }
 
     pub async fn search(timeout: Duration) -> Result<Vec<SearchResponse>, Whatever> {
@@ -416,7 +439,23 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
     Ok(connection)
 }
 
-pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_knx_tx: Sender<CEMI>) -> TransportResult<String> {
+pub(crate) async fn wait_disconnect_response(control_rx: &mut broadcast::Receiver<ControlResponse>) -> Result<DisconnectResponse, Whatever> {
+    let deadline = Instant::now() + CONTROL_RESPONSE_TIMEOUT;
+    loop {
+        match timeout_at(deadline, control_rx.recv()).await {
+            Ok(Ok(ControlResponse::Disconnect(resp))) => return Ok(resp),
+            Ok(Ok(_)) => (),
+            Ok(Err(e)) => whatever!("Transport closed before disconnection response {:?}", e),
+            Err(e) => whatever!("No disconnection response {:?}", e),
+        }
+    }
+}
+
+pub(crate) async fn handle_recv_from_knx_device(
+    socket: Arc<MyUdpSocket>,
+    from_knx_tx: Sender<CEMI>,
+    control_tx: broadcast::Sender<ControlResponse>,
+) -> TransportResult<String> {
     loop {
         let mut data = vec![0; MAX_DATAGRAM_SIZE];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
@@ -455,12 +494,15 @@ pub(crate) async fn handle_recv_from_knx_device(socket: Arc<MyUdpSocket>, from_k
                     }
                 }
                 TunnelingResponse::ConnectionstateResponse(resp) => {
+                    // Fails when nobody is waiting for it
+                    let _ = control_tx.send(ControlResponse::Connectionstate(resp.clone()));
                     if resp.status != 0 {
                         warn!("Connection state response with error {}", resp.status);
                         whatever!("KNX device signaled a connection state error");
                     }
                 }
                 TunnelingResponse::DisconnectResponse(resp) => {
+                    let _ = control_tx.send(ControlResponse::Disconnect(resp.clone()));
                     if resp.status == 0 {
                         info!("Successfully disconnected");
                     } else {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 4e2e6f1..92f2d9f 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -4,7 +4,6 @@ use crate::packets::apdu::APDU;
 use crate::packets::core::ConnectionResponse;
 use crate::packets::core::ConnectionstateRequest;
 use crate::packets::core::DisconnectRequest;
-use crate::packets::core::DisconnectResponse;
 use crate::packets::core::HPAI;
 use crate::packets::emi::CEMIMessageCode;
 use crate::packets::emi::LDataCon;
@@ -17,6 +16,8 @@ use crate::packets::tunneling::KnxIpFeature;
 use crate::packets::tunneling::TunnelingRequest;
 use crate::transport::udp::connect;
 use crate::transport::udp::handle_recv_from_knx_device;
+use crate::transport::udp::wait_disconnect_response;
+use crate::transport::udp::ControlResponse;
 use crate::transport::udp::MyUdpSocket;
 use log::debug;
 use log::info;
@@ -25,13 +26,12 @@ use snafu::whatever;
 use snafu::ResultExt;
 use snafu::Whatever;
 use std::fmt::Debug;
-use std::io::Cursor;
 use std::net::SocketAddr;
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::net::ToSocketAddrs;
 use tokio::net::UdpSocket;
-use tokio::sync::{mpsc, Mutex};
+use tokio::sync::{broadcast, mpsc, Mutex};
 use tokio::time::interval;
 use tracing::instrument;
 
@@ -55,6 +55,7 @@ struct UdpMonitorTransport {
     socket: Arc<MyUdpSocket>,
     connection_data: Arc<Mutex<Option<ConnectionData>>>,
     rx: Arc<Mutex<mpsc::Receiver<CEMI>>>,
+    control_tx: broadcast::Sender<ControlResponse>,
     on_connection: Arc<Mutex<Vec<mpsc::Sender<()>>>>,
 }
 
@@ -76,11 +77,13 @@ impl UdpMonitorTransport {
         let connection_data: Arc<Mutex<Option<ConnectionData>>> = Arc::new(Mutex::new(None));
 
         let (from_knx_tx, rx) = mpsc::channel(100);
+        let (control_tx, _) = broadcast::channel(16);
         let on_connection = Arc::new(Mutex::new(Vec::<mpsc::Sender<()>>::new()));
 
         tokio::spawn({
             let socket = socket.clone();
             let connection_data = connection_data.clone();
+            let control_tx = control_tx.clone();
             let on_connection = on_connection.clone();
 
             async move {
@@ -121,7 +124,7 @@ impl UdpMonitorTransport {
 
                     // The heart beat must not cancel it, it could be passing on an already acknowledged message
                     //
-                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone());
+                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone());
                     tokio::pin!(recv_from_knx_device);
 
                     loop {
@@ -159,6 +162,7 @@ impl UdpMonitorTransport {
                     let mut data = connection_data.lock().await;
                     *data = None;
                 }
+                *connection_data.lock().await = None;
                 debug!("UpdTransport receive task ended");
             }
         });
@@ -167,6 +171,7 @@ impl UdpMonitorTransport {
             socket,
             connection_data,
             rx: Arc::new(Mutex::new(rx)),
+            control_tx,
             on_connection,
         })
     }
@@ -235,15 +240,15 @@ impl UdpMonitorTransport {
         let communication_channel_id = self.communication_channel_id().await?;
         let req = DisconnectRequest::new(communication_channel_id, self.control_endpoint().await?).packet();
         debug!("Request disconnect for connection {}", communication_channel_id);
-        self.socket.send(&req).await.expect("Unable to send request");
-
-        let mut resp = vec![0; 100];
-        self.socket.recv(&mut resp).await.expect("Unable to get response");
-        let mut resp_cursor = Cursor::new(resp.as_slice());
+        let mut control_rx = self.control_tx.subscribe();
+        if let Err(e) = self.socket.send(&req).await {
+            whatever!("Unable to send disconnect request {:?}", e);
+        }
 
-        match DisconnectResponse::from_packet(&mut resp_cursor) {
+        match wait_disconnect_response(&mut control_rx).await {
             Ok(resp) => {
                 debug!("Disconnect response status {}", resp.status);
+                *self.connection_data.lock().await = None;
                 Ok(resp.status)
             }
             Err(e) => whatever!("Unable to request disconnection for id {}, {:?}", communication_channel_id, e),
-- 
2.43.0


From f172d54d6e2b667b385f20eb68ccf26f97831ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:50 +0000
Subject: [PATCH 24/39] fix: end the receive task when its client is dropped

It kept the connection alive forever, and opened a new one for each
telegram, because it could not pass it on.
---
 src/transport/udp.rs         | 8 +++++++-
 src/transport/udp_monitor.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index b716ad7..0f46f67 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -161,7 +161,10 @@ impl UdpTransport {
                     //
                     if connection_data.lock().await.is_none() {
                         info!("No valid connection with KNXIP device, create it");
-                        let connection = connect(socket.clone()).await;
+                        let connection = tokio::select! {
+                            connection = connect(socket.clone()) => connection,
+                            _ = from_knx_tx.closed() => break 'main,
+                        };
                         let communication_channel_id = connection.get_communication_channel_id();
 
                         info!("Created communication channel ID {:?}", communication_channel_id);
@@ -185,6 +188,9 @@ impl UdpTransport {
                                     break 'recv;
                                 }
                             },
+                            // Nobody can use the connection anymore
+                            //
+                            _ = from_knx_tx.closed() => break 'main,
                             _ = heart_beat.tick() => {
                                 info!("Send connection heart beat");
                                 match connection_data.lock().await.as_ref() {
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 92f2d9f..f1f41eb 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -101,7 +101,10 @@ impl UdpMonitorTransport {
                     //
                     if connection_data.lock().await.is_none() {
                         info!("No valid connection with KNXIP device, create it");
-                        let connection = connect(socket.clone()).await;
+                        let connection = tokio::select! {
+                            connection = connect(socket.clone()) => connection,
+                            _ = from_knx_tx.closed() => break 'main,
+                        };
                         let communication_channel_id = connection.get_communication_channel_id();
 
                         if enable_busmonitor(&socket, communication_channel_id).await.is_err() {
@@ -137,6 +140,9 @@ impl UdpMonitorTransport {
                                     break;
                                 }
                             }
+                            // Nobody can use the connection anymore
+                            //
+                            _ = from_knx_tx.closed() => break 'main,
                             _ = heart_beat.tick() => {
                                 info!("Send connection heart beat");
                                 let req = {
-- 
2.43.0


From 4cc30e292d66a03f6b408141ff25d73baf775036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:02 +0000
Subject: [PATCH 25/39] fix: reconnect after a disconnect request of the device

Now that these requests can be parsed they would end the receive task for
good. Only the request to close the own channel ends the connection.
---
 src/transport/udp.rs         | 11 ++++++++---
 src/transport/udp_monitor.rs |  6 ++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 0f46f67..143ae4e 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -155,6 +155,8 @@ impl UdpTransport {
                 //
                 heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
 
+                let mut communication_channel_id = 0;
+
                 'main: loop {
                     // If connection data is none we don't have a valid connection
                     // with KNXIP device
@@ -165,7 +167,7 @@ impl UdpTransport {
                             connection = connect(socket.clone()) => connection,
                             _ = from_knx_tx.closed() => break 'main,
                         };
-                        let communication_channel_id = connection.get_communication_channel_id();
+                        communication_channel_id = connection.get_communication_channel_id();
 
                         info!("Created communication channel ID {:?}", communication_channel_id);
                         let mut connection_data = connection_data.lock().await;
@@ -174,7 +176,7 @@ impl UdpTransport {
 
                     // The heart beat must not cancel it, it could be passing on an already acknowledged message
                     //
-                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone());
+                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), communication_channel_id, from_knx_tx.clone(), control_tx.clone());
                     tokio::pin!(recv_from_knx_device);
 
                     'recv: loop {
@@ -459,6 +461,7 @@ pub(crate) async fn wait_disconnect_response(control_rx: &mut broadcast::Receive
 
 pub(crate) async fn handle_recv_from_knx_device(
     socket: Arc<MyUdpSocket>,
+    communication_channel_id: u8,
     from_knx_tx: Sender<CEMI>,
     control_tx: broadcast::Sender<ControlResponse>,
 ) -> TransportResult<String> {
@@ -521,7 +524,9 @@ pub(crate) async fn handle_recv_from_knx_device(
                     if let Err(e) = socket.send(&disconnect_resp.packet()).await {
                         warn!("Unable to send disconnect response to knxip target {:?}", e);
                     }
-                    break Ok("KNX device requested disconnection".into());
+                    if disconnect_resp.communication_channel_id == communication_channel_id {
+                        whatever!("KNX device requested disconnection");
+                    }
                 }
             }
         }
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index f1f41eb..477ffd4 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -95,6 +95,8 @@ impl UdpMonitorTransport {
                 //
                 heart_beat.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
 
+                let mut communication_channel_id = 0;
+
                 'main: loop {
                     // If connection data is none we don't have a valid connection
                     // with KNXIP device
@@ -105,7 +107,7 @@ impl UdpMonitorTransport {
                             connection = connect(socket.clone()) => connection,
                             _ = from_knx_tx.closed() => break 'main,
                         };
-                        let communication_channel_id = connection.get_communication_channel_id();
+                        communication_channel_id = connection.get_communication_channel_id();
 
                         if enable_busmonitor(&socket, communication_channel_id).await.is_err() {
                             continue;
@@ -127,7 +129,7 @@ impl UdpMonitorTransport {
 
                     // The heart beat must not cancel it, it could be passing on an already acknowledged message
                     //
-                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), from_knx_tx.clone(), control_tx.clone());
+                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), communication_channel_id, from_knx_tx.clone(), control_tx.clone());
                     tokio::pin!(recv_from_knx_device);
 
                     loop {
-- 
2.43.0


From 50856fb64de69a9bb083ef621749dc1ea1184eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:13 +0000
Subject: [PATCH 26/39] fix: pass on repeated tunneling requests only once

When its ack is lost the device repeats a request with the same sequence
number: it has to be acknowledged again and discarded.
---
 src/transport/udp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 143ae4e..fc3771b 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -465,6 +465,7 @@ pub(crate) async fn handle_recv_from_knx_device(
     from_knx_tx: Sender<CEMI>,
     control_tx: broadcast::Sender<ControlResponse>,
 ) -> TransportResult<String> {
+    let mut last_sequence_nr = None;
     loop {
         let mut data = vec![0; MAX_DATAGRAM_SIZE];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
@@ -480,6 +481,14 @@ pub(crate) async fn handle_recv_from_knx_device(
                         whatever!("Unable to send tunneling ack to knxip target {:?}", e);
                     }
 
+                    // The device repeats a request when it did not receive our ack
+                    // 03.08.04 Tunneling section 2.6
+                    //
+                    if last_sequence_nr.replace(req.sequence_nr) == Some(req.sequence_nr) {
+                        debug!("Repeated tunneling request {}", req.sequence_nr);
+                        continue;
+                    }
+
                     let mut cemi = Cursor::new(req.get_cemi().as_slice());
 
                     let cemi = match CEMI::from_packet(&mut cemi) {
@@ -496,6 +505,7 @@ pub(crate) async fn handle_recv_from_knx_device(
                 }
                 TunnelingResponse::TunnelingAck(_) => {}
                 TunnelingResponse::FeatureResponse(resp) => {
+                    last_sequence_nr = Some(resp.sequence_nr);
                     let ack = TunnelingAck::new(resp.communication_channel_id, resp.sequence_nr, 0);
 
                     if let Err(e) = socket.send(&ack.packet()).await {
-- 
2.43.0


From 3fe219b065492ab62506c627cac8956478e3bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:25 +0000
Subject: [PATCH 27/39] fix: a full on connect channel blocked the monitor

The receive task waited for space while holding the connection data.
---
 src/transport/udp_monitor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 477ffd4..9a02a88 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -120,8 +120,11 @@ impl UdpMonitorTransport {
                         let mut active_on_connection = Vec::new();
                         let mut on_connection = on_connection.lock().await;
                         for tx in on_connection.iter() {
-                            if tx.send(()).await.is_ok() {
-                                active_on_connection.push(tx.clone());
+                            // Do not wait for a slow listener, it has pending notifications anyway
+                            //
+                            match tx.try_send(()) {
+                                Err(mpsc::error::TrySendError::Closed(_)) => (),
+                                _ => active_on_connection.push(tx.clone()),
                             }
                         }
                         *on_connection = active_on_connection;
-- 
2.43.0


From 69419b5c71acf1d45bc90b082dda5edc9d9163e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:37 +0000
Subject: [PATCH 28/39] fix: writes report the confirmation of their own
 telegram

A write failed because of any other telegram on the bus, and succeeded with
a negative confirmation or with the one of another address.
---
 src/transport/udp.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index fc3771b..38ef3c6 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -614,6 +614,7 @@ impl UdpClient {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        let expected_addr = addr.to_u16();
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
@@ -628,9 +629,15 @@ impl UdpClient {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi);
                     debug!("Parsed confirmation cEMI {:?}", data_con);
-                    return Ok(());
+                    match data_con {
+                        Ok(data_con) if data_con.l_data.dest == expected_addr => {
+                            ensure_whatever!(data_con.confirm, "Write request was not confirmed by the bus");
+                            return Ok(());
+                        }
+                        _ => (),
+                    }
                 }
-                Ok(Some(cemi)) => whatever!("Unknown cEMI message code {:?}", cemi.msg_code),
+                Ok(Some(cemi)) => debug!("Ignored cEMI message code {:?}", cemi.msg_code),
                 Ok(None) => whatever!("No more data will be received from client"),
                 Err(_) => whatever!("Write request timed out"),
             }
-- 
2.43.0


From d6c70ba4a89d9040634184d4a02fb413f0d1f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:49 +0000
Subject: [PATCH 29/39] fix: read requests of other devices are not the value
 of a group

A group value read of another device for the same address was returned as
value 0.
---
 src/packets/apdu.rs  | 3 +++
 src/packets/emi.rs   | 2 ++
 src/transport/udp.rs | 5 +++--
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/packets/apdu.rs b/src/packets/apdu.rs
index ea489d6..03788e8 100644
--- a/src/packets/apdu.rs
+++ b/src/packets/apdu.rs
@@ -68,6 +68,9 @@ pub struct APCI {
 }
 
 impl APCI {
+    pub const A_GROUP_VALUE_RESPONSE: u16 = 1;
+    pub const A_GROUP_VALUE_WRITE: u16 = 2;
+
     pub fn a_group_value_read() -> Self {
         Self {
             code: 0,
diff --git a/src/packets/emi.rs b/src/packets/emi.rs
index 38d496f..9ee4b23 100644
--- a/src/packets/emi.rs
+++ b/src/packets/emi.rs
@@ -69,6 +69,7 @@ pub struct LData {
 pub struct LDataInd {
     pub cemi: CEMI,
     pub l_data: LData,
+    pub apci: u16,
     pub value: Vec<u8>,
 }
 
@@ -133,6 +134,7 @@ impl LDataInd {
                 system_broadcast,
                 ack_request,
             },
+            apci,
             value,
         })
     }
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 38ef3c6..9c5c107 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -16,7 +16,7 @@ use tokio::sync::{broadcast, mpsc, Mutex};
 use crate::packets::tunneling::KnxIpFeature;
 use crate::packets::{
     addresses::KnxAddress,
-    apdu::APDU,
+    apdu::{APCI, APDU},
     core::{ConnectionRequest, ConnectionResponse, ConnectionstateRequest, ConnectionstateResponse, DisconnectRequest, DisconnectResponse, HPAI},
     emi::{CEMIMessageCode, LDataCon, LDataInd, LDataReqMessage, CEMI},
     tpdu::TPDU,
@@ -597,7 +597,8 @@ impl UdpClient {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
                     let data_ind = LDataInd::from_cemi(cemi)?;
                     debug!("Parsed indication cEMI {:?}", data_ind);
-                    if data_ind.l_data.dest == expected_addr {
+                    let has_value = matches!(data_ind.apci, APCI::A_GROUP_VALUE_RESPONSE | APCI::A_GROUP_VALUE_WRITE);
+                    if has_value && data_ind.l_data.dest == expected_addr {
                         return Ok(data_ind.value);
                     }
                 }
-- 
2.43.0


From 0b5d843b7b3704a076e1813f4d2a266cc77d1e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:00 +0000
Subject: [PATCH 30/39] fix: reads and writes considered telegrams of before
 their request

A read returned the value of any earlier telegram and a write took the
confirmation of an earlier one. Each telegram also restarted the timeout, so
that on a busy bus they did not end.
---
 src/transport/udp.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 9c5c107..5fb86a7 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -543,6 +543,12 @@ pub(crate) async fn handle_recv_from_knx_device(
     }
 }
 
+// Telegrams received before a request are not its response
+//
+fn discard_pending(rx: &mut mpsc::Receiver<CEMI>) {
+    while rx.try_recv().is_ok() {}
+}
+
 pub struct UdpClient {
     timeout: Duration,
     transport: Arc<Mutex<UdpTransport>>,
@@ -586,10 +592,12 @@ impl UdpClient {
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
-        transport.tunnel_req(req.packet()).await?;
         let mut rx = transport.rx.lock().await;
+        discard_pending(&mut rx);
+        transport.tunnel_req(req.packet()).await?;
+        let deadline = Instant::now() + self.get_read_timeout();
         loop {
-            match timeout(self.get_read_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi);
                     debug!("Parsed confirmation cEMI {:?}", data_con);
@@ -622,11 +630,13 @@ impl UdpClient {
         debug!("LDataReq {:?}", req);
 
         let transport = self.transport.lock().await;
+        let mut rx = transport.rx.lock().await;
+        discard_pending(&mut rx);
         transport.tunnel_req(req.packet()).await?;
         debug!("Write request sent to bus");
-        let mut rx = transport.rx.lock().await;
+        let deadline = Instant::now() + self.get_write_timeout();
         loop {
-            match timeout(self.get_write_timeout(), rx.recv()).await {
+            match timeout_at(deadline, rx.recv()).await {
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataCon as u8 => {
                     let data_con = LDataCon::from_cemi(cemi);
                     debug!("Parsed confirmation cEMI {:?}", data_con);
-- 
2.43.0


From e5cc87430e2ea12ebc7f63a454bd19a70bec799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:12 +0000
Subject: [PATCH 31/39] fix: an idle UdpClient stopped receiving after 100
 telegrams

Nobody takes the telegrams between two requests: when the channel was full
the receive task waited, and neither acknowledged nor handled anything.
---
 src/transport/udp.rs         | 7 ++++++-
 src/transport/udp_monitor.rs | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 5fb86a7..d798912 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -176,7 +176,7 @@ impl UdpTransport {
 
                     // The heart beat must not cancel it, it could be passing on an already acknowledged message
                     //
-                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), communication_channel_id, from_knx_tx.clone(), control_tx.clone());
+                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), communication_channel_id, from_knx_tx.clone(), true, control_tx.clone());
                     tokio::pin!(recv_from_knx_device);
 
                     'recv: loop {
@@ -463,6 +463,7 @@ pub(crate) async fn handle_recv_from_knx_device(
     socket: Arc<MyUdpSocket>,
     communication_channel_id: u8,
     from_knx_tx: Sender<CEMI>,
+    discard_when_full: bool,
     control_tx: broadcast::Sender<ControlResponse>,
 ) -> TransportResult<String> {
     let mut last_sequence_nr = None;
@@ -498,6 +499,10 @@ pub(crate) async fn handle_recv_from_knx_device(
                             continue;
                         }
                     };
+                    if discard_when_full && from_knx_tx.capacity() == 0 {
+                        debug!("Discard telegram nobody is waiting for");
+                        continue;
+                    }
                     match from_knx_tx.send(cemi).await {
                         Ok(_) => (),
                         Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 9a02a88..644293f 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -132,7 +132,7 @@ impl UdpMonitorTransport {
 
                     // The heart beat must not cancel it, it could be passing on an already acknowledged message
                     //
-                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), communication_channel_id, from_knx_tx.clone(), control_tx.clone());
+                    let recv_from_knx_device = handle_recv_from_knx_device(socket.clone(), communication_channel_id, from_knx_tx.clone(), false, control_tx.clone());
                     tokio::pin!(recv_from_knx_device);
 
                     loop {
-- 
2.43.0


From 916cc6f302b03f1a2f89b26c8fd0d3bab3ae88d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:24 +0000
Subject: [PATCH 32/39] fix: control requests contain the endpoint of the
 client

The data endpoint of the device was sent as the endpoint to which it has to
respond (03.08.02 Core sections 7.8.3 and 7.8.5).
---
 src/transport/udp.rs         | 3 ++-
 src/transport/udp_monitor.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index d798912..2678661 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -42,7 +42,8 @@ impl ConnectionData {
         Self {
             sequence_nr: 0,
             communication_channel_id: connection.get_communication_channel_id(),
-            control_endpoint: connection.get_data_endpoint(),
+            // Our own endpoint, as in the connection request
+            control_endpoint: HPAI::udp(),
         }
     }
 }
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 644293f..6c79b2e 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -46,7 +46,8 @@ impl ConnectionData {
         Self {
             sequence_nr: 1,
             communication_channel_id: connection.get_communication_channel_id(),
-            control_endpoint: connection.get_data_endpoint(),
+            // Our own endpoint, as in the connection request
+            control_endpoint: HPAI::udp(),
         }
     }
 }
-- 
2.43.0


From 188e6795de5f328b704a9e238c6515e99ce5b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:36 +0000
Subject: [PATCH 33/39] fix: search ends on time with all the valid responses

One invalid response discarded the valid ones, each response restarted the
timeout, a short response was completed with the bytes of the previous one,
and an unreachable network panicked.
---
 src/transport/udp.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 2678661..f494c6f 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -328,31 +328,36 @@ impl UdpTransport {
 
         let req = SearchRequest::udp_unicast(local_addr).packet();
         debug!("Sending search request {:0x?}", req);
-        socket
-            .send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT))
-            .await
-            .expect("Unable to send request");
+        if let Err(e) = socket.send_to(&req, (SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT)).await {
+            whatever!("Unable to send search request {:?}", e);
+        }
 
-        let mut buffer = vec![0; 100];
+        let mut buffer = vec![0; MAX_DATAGRAM_SIZE];
         let mut responses = Vec::new();
+        let search_end = sleep(timeout);
+        tokio::pin!(search_end);
 
         loop {
             select! {
                 n_bytes = socket.recv(&mut buffer) => {
                     match n_bytes {
-                        Ok(_n_bytes) => {
-                            debug!("Search response {:0x?}", buffer);
-                            let mut cursor = Cursor::new(buffer.as_slice());
-                            let resp = SearchResponse::from_packet(&mut cursor)?;
-                            debug!("Parsed search response {:0x?}", resp);
-                            responses.push(resp);
+                        Ok(n_bytes) => {
+                            debug!("Search response {:0x?}", &buffer[..n_bytes]);
+                            let mut cursor = Cursor::new(&buffer[..n_bytes]);
+                            match SearchResponse::from_packet(&mut cursor) {
+                                Ok(resp) => {
+                                    debug!("Parsed search response {:0x?}", resp);
+                                    responses.push(resp);
+                                }
+                                Err(e) => warn!("Invalid search response {:?}", e),
+                            }
                         },
                         Err(e) => {
                             whatever!("Unable to get response {:?}", e);
                         }
                     }
                 },
-                _ = tokio::time::sleep(timeout) => {
+                _ = &mut search_end => {
                      debug!("Search timeout received {} responses", responses.len());
                      break;
                 }
-- 
2.43.0


From 4dd4435cf0f8b0b1cad9660319b3c86d61b8ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:47 +0000
Subject: [PATCH 34/39] fix: reject values which do not fit in a telegram

Their length field was truncated, or overflowed (panic).
---
 src/packets/apdu.rs          | 4 ++++
 src/transport/udp.rs         | 3 ++-
 src/transport/udp_monitor.rs | 4 +++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/packets/apdu.rs b/src/packets/apdu.rs
index 03788e8..8181008 100644
--- a/src/packets/apdu.rs
+++ b/src/packets/apdu.rs
@@ -9,6 +9,10 @@ pub struct APDU {
     data: APDUData,
 }
 
+// The length field of an extended frame is at most 254, it counts the second APCI byte
+//
+pub const MAX_VALUE_LENGTH: usize = 253;
+
 #[derive(Debug)]
 pub enum APDUData {
     Small(u8),
diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index f494c6f..ba57ef3 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -16,7 +16,7 @@ use tokio::sync::{broadcast, mpsc, Mutex};
 use crate::packets::tunneling::KnxIpFeature;
 use crate::packets::{
     addresses::KnxAddress,
-    apdu::{APCI, APDU},
+    apdu::{APCI, APDU, MAX_VALUE_LENGTH},
     core::{ConnectionRequest, ConnectionResponse, ConnectionstateRequest, ConnectionstateResponse, DisconnectRequest, DisconnectResponse, HPAI},
     emi::{CEMIMessageCode, LDataCon, LDataInd, LDataReqMessage, CEMI},
     tpdu::TPDU,
@@ -634,6 +634,7 @@ impl UdpClient {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        ensure_whatever!(value.len() <= MAX_VALUE_LENGTH, "Value of {} bytes is too long", value.len());
         let expected_addr = addr.to_u16();
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
diff --git a/src/transport/udp_monitor.rs b/src/transport/udp_monitor.rs
index 6c79b2e..fdedea4 100644
--- a/src/transport/udp_monitor.rs
+++ b/src/transport/udp_monitor.rs
@@ -1,6 +1,6 @@
 use super::udp::TransportResult;
 use crate::packets::addresses::KnxAddress;
-use crate::packets::apdu::APDU;
+use crate::packets::apdu::{APDU, MAX_VALUE_LENGTH};
 use crate::packets::core::ConnectionResponse;
 use crate::packets::core::ConnectionstateRequest;
 use crate::packets::core::DisconnectRequest;
@@ -22,6 +22,7 @@ use crate::transport::udp::MyUdpSocket;
 use log::debug;
 use log::info;
 use log::warn;
+use snafu::ensure_whatever;
 use snafu::whatever;
 use snafu::ResultExt;
 use snafu::Whatever;
@@ -360,6 +361,7 @@ impl UdpMonitor {
 
     pub async fn write_group_address_value(&self, addr: KnxAddress, value: Vec<u8>, small: bool) -> TransportResult<()> {
         debug!("Write {:?} to {:?}", value, addr);
+        ensure_whatever!(value.len() <= MAX_VALUE_LENGTH, "Value of {} bytes is too long", value.len());
         let apdu = APDU::group_value_write(value, small);
         let tpdu = TPDU::t_data_group(apdu);
         let req = LDataReqMessage::new(addr, tpdu);
-- 
2.43.0


From 06c126e5eee4142eca2ed3475cbbdc02f68ec3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:33 +0000
Subject: [PATCH 35/39] fix: leftovers of the previous connection are not a
 connection response

Each of them failed an attempt and delayed the next one by 10 seconds. The
responses to the failed attempts then closed the new connections, one after
the other.
---
 src/transport/udp.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index ba57ef3..8afa44e 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -435,12 +435,19 @@ async fn try_connection(socket: Arc<MyUdpSocket>) -> Result<ConnectionResponse,
         whatever!("Unable to send connection request {:?}", e);
     }
 
-    let mut resp = vec![0; MAX_DATAGRAM_SIZE];
-    match timeout(Duration::from_secs(30), socket.recv(&mut resp)).await {
-        Ok(Ok(count)) => resp.truncate(count),
-        Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
-        Err(e) => whatever!("Target device does not respond {:?}", e),
-    }
+    let deadline = Instant::now() + Duration::from_secs(30);
+    let resp = loop {
+        let mut resp = vec![0; MAX_DATAGRAM_SIZE];
+        match timeout_at(deadline, socket.recv(&mut resp)).await {
+            Ok(Ok(count)) => resp.truncate(count),
+            Ok(Err(e)) => whatever!("Unable to receive connection response {:?}", e),
+            Err(e) => whatever!("Target device does not respond {:?}", e),
+        }
+        if resp.get(2..4) == Some(&[0x02, 0x06]) {
+            break resp;
+        }
+        debug!("Ignored datagram of a previous connection {:0x?}", resp);
+    };
     debug!("Connection response {:0x?}", resp);
 
     let mut resp_cursor = Cursor::new(resp.as_slice());
-- 
2.43.0


From a9a77d78e3acf2849b203997d17e44f73f7ea4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:41 +0000
Subject: [PATCH 36/39] fix: invalid telegrams of other devices made a read
 fail

---
 src/transport/udp.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 8afa44e..9d2d51d 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -621,7 +621,13 @@ impl UdpClient {
                     debug!("Parsed confirmation cEMI {:?}", data_con);
                 }
                 Ok(Some(cemi)) if cemi.msg_code == CEMIMessageCode::LDataInd as u8 => {
-                    let data_ind = LDataInd::from_cemi(cemi)?;
+                    let data_ind = match LDataInd::from_cemi(cemi) {
+                        Ok(data_ind) => data_ind,
+                        Err(e) => {
+                            warn!("Ignored invalid indication {:?}", e);
+                            continue;
+                        }
+                    };
                     debug!("Parsed indication cEMI {:?}", data_ind);
                     let has_value = matches!(data_ind.apci, APCI::A_GROUP_VALUE_RESPONSE | APCI::A_GROUP_VALUE_WRITE);
                     if has_value && data_ind.l_data.dest == expected_addr {
-- 
2.43.0


From 5b5d5d984e63b3419caac5089c70bd63835b0739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:36 +0000
Subject: [PATCH 37/39] fix: an acknowledged telegram got lost when the queue
 of the monitor was full

---
 src/transport/udp.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 9d2d51d..20ff462 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -481,6 +481,12 @@ pub(crate) async fn handle_recv_from_knx_device(
 ) -> TransportResult<String> {
     let mut last_sequence_nr = None;
     loop {
+        // Without room for it a telegram would be acknowledged, but could still get lost
+        //
+        if !discard_when_full && from_knx_tx.reserve().await.is_err() {
+            break Ok("Nobody is interested in telegrams anymore".into());
+        }
+
         let mut data = vec![0; MAX_DATAGRAM_SIZE];
         let count = socket.recv(&mut data).await.map_err(|e| format!("UPD Socket was closed {:?}", e))?;
         data.truncate(count);
-- 
2.43.0


From 45fd4877d629acbe2ee9319b9bf44db3fb21a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:28 +0000
Subject: [PATCH 38/39] fix: many control responses at once made a status query
 or disconnection fail

---
 src/transport/udp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index 20ff462..dd21272 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -254,7 +254,8 @@ impl UdpTransport {
         loop {
             match timeout_at(deadline, control_rx.recv()).await {
                 Ok(Ok(ControlResponse::Connectionstate(resp))) => return Ok(resp),
-                Ok(Ok(_)) => (),
+                // Other responses, or more of them at once than are kept
+                Ok(Ok(_)) | Ok(Err(broadcast::error::RecvError::Lagged(_))) => (),
                 Ok(Err(e)) => whatever!("Connectionstate not responded {:?}", e),
                 Err(e) => whatever!("Connectionstate not responded {:?}", e),
             }
@@ -465,7 +466,7 @@ pub(crate) async fn wait_disconnect_response(control_rx: &mut broadcast::Receive
     loop {
         match timeout_at(deadline, control_rx.recv()).await {
             Ok(Ok(ControlResponse::Disconnect(resp))) => return Ok(resp),
-            Ok(Ok(_)) => (),
+            Ok(Ok(_)) | Ok(Err(broadcast::error::RecvError::Lagged(_))) => (),
             Ok(Err(e)) => whatever!("Transport closed before disconnection response {:?}", e),
             Err(e) => whatever!("No disconnection response {:?}", e),
         }
-- 
2.43.0


From 0b972ae2df7a28cec94c3bca69fec9a2ed582665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 39/39] fix: pass telegrams on to client operations before
 acknowledging them

A telegram was acknowledged first, which may have to wait. An operation
started meanwhile took it, although received before its request, for the
response to it; and an answer was not available while the ack had to wait.
---
 src/transport/udp.rs | 47 ++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/transport/udp.rs b/src/transport/udp.rs
index dd21272..5412c15 100644
--- a/src/transport/udp.rs
+++ b/src/transport/udp.rs
@@ -497,36 +497,41 @@ pub(crate) async fn handle_recv_from_knx_device(
 
             match resp {
                 TunnelingResponse::TunnelingRequest(req) => {
-                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
-                    if let Err(e) = socket.send(&ack.packet()).await {
-                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
-                    }
-
                     // The device repeats a request when it did not receive our ack
                     // 03.08.04 Tunneling section 2.6
                     //
+                    let mut cemi = None;
                     if last_sequence_nr.replace(req.sequence_nr) == Some(req.sequence_nr) {
                         debug!("Repeated tunneling request {}", req.sequence_nr);
-                        continue;
+                    } else {
+                        match CEMI::from_packet(&mut Cursor::new(req.get_cemi().as_slice())) {
+                            Ok(parsed) => cemi = Some(parsed),
+                            Err(e) => warn!("Error parsing cEMI response {:?}", e),
+                        }
                     }
 
-                    let mut cemi = Cursor::new(req.get_cemi().as_slice());
-
-                    let cemi = match CEMI::from_packet(&mut cemi) {
-                        Ok(cemi) => cemi,
-                        Err(e) => {
-                            warn!("Error parsing cEMI response {:?}", e);
-                            continue;
+                    // Passed on before anything is awaited, an operation started meanwhile would take it
+                    // for a response to its own request
+                    //
+                    if discard_when_full {
+                        if let Some(cemi) = cemi.take() {
+                            if from_knx_tx.try_send(cemi).is_err() {
+                                debug!("Discard telegram nobody is waiting for");
+                            }
                         }
-                    };
-                    if discard_when_full && from_knx_tx.capacity() == 0 {
-                        debug!("Discard telegram nobody is waiting for");
-                        continue;
                     }
-                    match from_knx_tx.send(cemi).await {
-                        Ok(_) => (),
-                        Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
-                    };
+
+                    let ack = TunnelingAck::new(req.communication_channel_id, req.sequence_nr, 0);
+                    if let Err(e) = socket.send(&ack.packet()).await {
+                        whatever!("Unable to send tunneling ack to knxip target {:?}", e);
+                    }
+
+                    if let Some(cemi) = cemi {
+                        match from_knx_tx.send(cemi).await {
+                            Ok(_) => (),
+                            Err(e) => whatever!("Unable to pass received request from knx device, {:?}", e),
+                        };
+                    }
                 }
                 TunnelingResponse::TunnelingAck(_) => {}
                 TunnelingResponse::FeatureResponse(resp) => {
-- 
2.43.0

