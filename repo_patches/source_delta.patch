From 914512e8ddfba2ac39441f46f78c50525299d004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:46 +0000
Subject: [PATCH 01/32] fix: streaming reader skips signatures without a valid
 header

A signature followed by an invalid header was reported as an error without
being consumed, so every following read failed at the same place and all
packets behind it were lost. A signature at the very end of the buffer was
not recognised at all.
---
 brec/src/packet/header/mod.rs |  2 +-
 brec/src/packet/reader.rs     | 38 +++++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/brec/src/packet/header/mod.rs b/brec/src/packet/header/mod.rs
index fef7f9a..2d25e4a 100644
--- a/brec/src/packet/header/mod.rs
+++ b/brec/src/packet/header/mod.rs
@@ -108,7 +108,7 @@ impl PacketHeader {
     /// The offset of the first occurrence of `PACKET_SIG`, or `None` if not found.
     pub fn get_pos(buffer: &[u8]) -> Option<usize> {
         let mut offset = 0;
-        while buffer.len() > offset + PACKET_SIG.len() {
+        while buffer.len() >= offset + PACKET_SIG.len() {
             if buffer[offset..].starts_with(&PACKET_SIG) {
                 return Some(offset);
             } else {
diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 07a98db..b522503 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -115,19 +115,27 @@ impl<
     /// If a signature is found but there is insufficient data to parse the full header,
     /// it returns `PacketHeaderState::NotEnoughData`. If the header is successfully parsed,
     /// it returns `PacketHeaderState::Found`.
-    fn read_header(buffer: &[u8]) -> Result<PacketHeaderState, Error> {
-        let Some(offset) = PacketHeader::get_pos(buffer) else {
-            // Signature of PacketDef isn't found
-            return Ok(PacketHeaderState::NotFound);
-        };
-        if let Some(needed) = PacketHeader::is_not_enought(&buffer[offset..]) {
-            // Header is detected, but not enough data to load it
-            return Ok(PacketHeaderState::NotEnoughData(offset, needed));
+    ///
+    /// A signature, which isn't followed by a valid header, doesn't belong to any packet; search
+    /// continues behind it.
+    fn read_header(buffer: &[u8]) -> PacketHeaderState {
+        let mut from = 0;
+        while let Some(pos) = PacketHeader::get_pos(&buffer[from..]) {
+            let offset = from + pos;
+            if let Some(needed) = PacketHeader::is_not_enought(&buffer[offset..]) {
+                // Header is detected, but not enough data to load it
+                return PacketHeaderState::NotEnoughData(offset, needed);
+            }
+            if let Ok(header) = PacketHeader::read_from_slice(&buffer[offset..], false) {
+                return PacketHeaderState::Found(
+                    header,
+                    std::ops::RangeInclusive::new(offset, offset + PacketHeader::ssize() as usize),
+                );
+            }
+            from = offset + 1;
         }
-        Ok(PacketHeaderState::Found(
-            PacketHeader::read_from_slice(&buffer[offset..], false)?,
-            std::ops::RangeInclusive::new(offset, offset + PacketHeader::ssize() as usize),
-        ))
+        // Signature of PacketDef isn't found
+        PacketHeaderState::NotFound
     }
 
     /// Clears the internal buffer and consumes a specified number of bytes from the reader.
@@ -203,7 +211,7 @@ impl<
         let buffered = buffer.len();
         // First make attempt to read header without possible litter
         buffer.extend_from_slice(&extracted[..needed]);
-        match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer)? {
+        match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer) {
             PacketHeaderState::Found(header, sgmt) => {
                 if sgmt.start() > &0 {
                     self.rules.ignore(&buffer[..*sgmt.start()])?;
@@ -219,7 +227,7 @@ impl<
         // Second, if buffer has litter, header might be in next bytes. Trying all available bytes
         buffer.extend_from_slice(&extracted[needed..]);
         let header_len = PacketHeader::ssize() as usize;
-        match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer)? {
+        match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(&buffer) {
             PacketHeaderState::Found(header, sgmt) => {
                 if sgmt.start() > &0 {
                     self.rules.ignore(&buffer[..*sgmt.start()])?;
@@ -303,7 +311,7 @@ impl<
                     self.inner.consume(available);
                     return Ok(NextPacket::NotEnoughData(needed));
                 }
-                match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(buffer)? {
+                match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(buffer) {
                     PacketHeaderState::NotFound => {
                         let header_len = PacketHeader::ssize() as usize;
                         if available > header_len {
-- 
2.43.0


From 74caf6b5081acf7d6095f8989d14050f656cc35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:17 +0000
Subject: [PATCH 02/32] fix: streaming reader keeps only a possible header
 start after litter

After a segment without a header the reader kept a whole header length and
demanded another header length of data before looking again, so a packet
shorter than that at the end of the stream was never found.
---
 brec/src/packet/reader.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index b522503..2242502 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -247,13 +247,13 @@ impl<
                 Ok(NextPacket::NotEnoughData(needed))
             }
             PacketHeaderState::NotFound => {
-                if buffer.len() > header_len {
-                    self.rules.ignore(&buffer[..buffer.len() - header_len])?;
-                    // We can drain most bytes in buffer and left only length of header signature
-                    buffer.drain(..(buffer.len() - header_len));
-                }
+                // Beginning of header might be in the last bytes only; buffer has at least
+                // length of header here
+                let litter = buffer.len() + 1 - header_len;
+                self.rules.ignore(&buffer[..litter])?;
+                buffer.drain(..litter);
                 self.inner.consume(extracted_len);
-                self.recent = HeaderReadState::Refill(Some((buffer, header_len)));
+                self.recent = HeaderReadState::Refill(Some((buffer, 1)));
                 Ok(NextPacket::NotFound)
             }
         }
@@ -313,17 +313,11 @@ impl<
                 }
                 match PacketBufReaderDef::<'a, R, B, BR, P, Inner>::read_header(buffer) {
                     PacketHeaderState::NotFound => {
-                        let header_len = PacketHeader::ssize() as usize;
-                        if available > header_len {
-                            self.rules.ignore(&buffer[..available - header_len])?;
-                            self.recent = HeaderReadState::Refill(Some((
-                                buffer[available - header_len..].to_vec(),
-                                header_len,
-                            )));
-                        } else {
-                            self.recent =
-                                HeaderReadState::Refill(Some((buffer.to_vec(), header_len)));
-                        }
+                        // Beginning of header might be in the last bytes only
+                        let litter = available + 1 - PacketHeader::ssize() as usize;
+                        self.rules.ignore(&buffer[..litter])?;
+                        self.recent =
+                            HeaderReadState::Refill(Some((buffer[litter..].to_vec(), 1)));
                         self.inner.consume(available);
                         return Ok(NextPacket::NotFound);
                     }
-- 
2.43.0


From f067e54839324b1344ca12d29d21ab953f2e5f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:17 +0000
Subject: [PATCH 03/32] fix: streaming reader keeps its state on source errors
 and ends at end of data

An error of the source (e.g. Interrupted, WouldBlock) in the middle of a header
or a packet dropped everything collected so far. A stream which ends in the
middle of a packet gave NotEnoughData forever instead of NoData.
---
 brec/src/packet/reader.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 2242502..4110bc9 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -163,11 +163,23 @@ impl<
         &mut self,
         header: PacketHeader,
     ) -> Result<ResolveHeaderReady<B, P, Inner>, Error> {
-        let buffer = self.inner.fill_buf()?;
+        let buffer = match self.inner.fill_buf() {
+            Ok(buffer) => buffer,
+            Err(err) => {
+                // Reading might be continued
+                self.recent = HeaderReadState::Ready(Some(header));
+                return Err(err.into());
+            }
+        };
         // Check do we have enough data to load packet
         let packet_size = header.size as usize;
         let available = self.buffered.len() + buffer.len();
         if packet_size > available {
+            if buffer.is_empty() {
+                // Source is exhausted in the middle of packet
+                self.recent = HeaderReadState::Ready(Some(header));
+                return Ok(ResolveHeaderReady::Next(NextPacket::NoData));
+            }
             // Not enough data to load packet
             let consumed = buffer.len();
             self.buffered.extend_from_slice(buffer);
@@ -196,7 +208,14 @@ impl<
         mut buffer: Vec<u8>,
         needed: usize,
     ) -> Result<NextPacket<B, P, Inner>, Error> {
-        let extracted = self.inner.fill_buf()?;
+        let extracted = match self.inner.fill_buf() {
+            Ok(extracted) => extracted,
+            Err(err) => {
+                // Reading might be continued
+                self.recent = HeaderReadState::Refill(Some((buffer, needed)));
+                return Err(err.into());
+            }
+        };
         if extracted.is_empty() {
             self.rules.ignore(&buffer)?;
             return Ok(NextPacket::NoData);
-- 
2.43.0


From 42500332ac2b056de80cb7072fa88a3162c42926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:17 +0000
Subject: [PATCH 04/32] fix: streaming reader consumes packets with a bad
 payload or too many blocks

The error was returned without consuming the packet, so every following read
failed at the same packet and all packets behind it were lost.
---
 brec/src/packet/reader.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 4110bc9..124a720 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -388,8 +388,7 @@ impl<
         if !blocks_buffer.is_empty() {
             loop {
                 if count == MAX_BLOCKS_COUNT {
-                    self.buffered.clear();
-                    return Err(Error::MaxBlocksCount);
+                    return self.drop_and_consume(consume, Err(Error::MaxBlocksCount));
                 }
                 let blk = match BR::read_from_slice(&blocks_buffer[processed..], false) {
                     Ok(blk) => blk,
@@ -425,12 +424,12 @@ impl<
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
                         &header,
-                    )? {
-                        ReadStatus::Success(payload) => PacketDef::new(
+                    ) {
+                        Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
                             Some(payload),
                         ),
-                        ReadStatus::NotEnoughData(needed) => {
+                        Ok(ReadStatus::NotEnoughData(needed)) => {
                             // This is error, but not NextPacket::NotEnoughData because length of payload
                             // already has been check. If we are here - some data is invalid and
                             // it's an error
@@ -439,6 +438,9 @@ impl<
                                 Err(Error::NotEnoughData(needed as usize)),
                             );
                         }
+                        Err(err) => {
+                            return self.drop_and_consume(consume, Err(err));
+                        }
                     }
                 }
                 Ok(ReadStatus::NotEnoughData(needed)) => {
-- 
2.43.0


From e3763e0a84fb02df6852b449a646c30013138863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:17 +0000
Subject: [PATCH 05/32] fix: streaming reader survives absurd sizes in packet
 headers

A header with a valid checksum, but with blocks longer than the packet or with
a size close to the maximum made the reader panic; a buffer of 4 GB was
requested with each reader.
---
 brec/src/packet/reader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 124a720..0a3d098 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -284,7 +284,7 @@ impl<
             inner: std::io::BufReader::new(inner),
             rules: RulesDef::default(),
             recent: HeaderReadState::Empty,
-            buffered: Vec::with_capacity(u32::MAX as usize),
+            buffered: Vec::new(),
         }
     }
 
@@ -357,7 +357,7 @@ impl<
                             self.rules.ignore(&buffer[..*sgmt.start()])?;
                         }
                         let packet_size = header.size as usize;
-                        let needs = packet_size + *sgmt.end();
+                        let needs = packet_size.saturating_add(*sgmt.end());
                         if needs > available {
                             // Not enough data to load packet
                             self.buffered.extend_from_slice(&buffer[*sgmt.end()..]);
@@ -381,6 +381,10 @@ impl<
             }
         };
         let blocks_len = header.blocks_len as usize;
+        if blocks_len > packet_buffer.len() {
+            let needed = blocks_len - packet_buffer.len();
+            return self.drop_and_consume(consume, Err(Error::NotEnoughData(needed)));
+        }
         let blocks_buffer = &packet_buffer[..blocks_len];
         let mut blocks = Vec::new();
         let mut processed = 0;
-- 
2.43.0


From 9acad07bfc33916ca3c7fbf8e1275c5b5b0f03c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 06/32] fix: fields named like variables of the generated code

A block with a field named "buf" or "crc" was accepted by the macro, but the
generated reading code didn't compile (or compared a field with the checksum).
---
 brec_macros/src/codegen/read/block.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 504afd7..820b3ae 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -9,7 +9,7 @@ impl Read for Block {
         let mut fields = Vec::new();
         let mut fnames = Vec::new();
         let sig_len = self.sig_len();
-        let src: syn::Ident = format_ident!("buf");
+        let src: syn::Ident = format_ident!("__brec_buf");
         for field in self.fields.iter().filter(|f| !f.injected) {
             fields.push(field.read_exact(&src)?);
             fnames.push(format_ident!("{}", field.name));
@@ -17,7 +17,7 @@ impl Read for Block {
         Ok(quote! {
 
             impl brec::ReadBlockFrom for #block_name {
-                fn read<T: std::io::Read>(buf: &mut T, skip_sig: bool) -> Result<Self, brec::Error>
+                fn read<T: std::io::Read>(#src: &mut T, skip_sig: bool) -> Result<Self, brec::Error>
                 where
                     Self: Sized {
                         use brec::prelude::*;
@@ -31,13 +31,13 @@ impl Read for Block {
 
                         #(#fields)*
 
-                        let mut crc = [0u8; 4];
-                        #src.read_exact(&mut crc)?;
+                        let mut __brec_crc = [0u8; 4];
+                        #src.read_exact(&mut __brec_crc)?;
 
                         let block = #block_name {
                             #(#fnames,)*
                         };
-                        if block.crc() != crc {
+                        if block.crc() != __brec_crc {
                             return Err(brec::Error::CrcDismatch)
                         }
 
@@ -58,7 +58,7 @@ impl ReadFromSlice for Block {
         let mut fields = Vec::new();
         let mut fnames = Vec::new();
         let mut offset = 0usize;
-        let src: syn::Ident = format_ident!("buf");
+        let src: syn::Ident = format_ident!("__brec_buf");
         for field in self.fields.iter() {
             if &field.name == "__sig" {
                 let name = format_ident!("{}", FIELD_SIG);
@@ -73,7 +73,7 @@ impl ReadFromSlice for Block {
                 let name = format_ident!("{}", FIELD_CRC);
                 fields.push(quote! {
                     let #name = <&[u8; #BLOCK_CRC_LEN]>::try_from(&#src[#offset..#offset + #BLOCK_CRC_LEN])?;
-                    let crc = #name;
+                    let __brec_crc = #name;
                 });
             } else {
                 fields.push(field.safe(&src, offset, offset + field.ty.size()));
@@ -114,7 +114,7 @@ impl ReadFromSlice for Block {
                         #(#fnames,)*
                     };
 
-                    if block.crc() != *crc {
+                    if block.crc() != *__brec_crc {
                         return Err(brec::Error::CrcDismatch)
                     }
                     let block: #referred_name <'a> = unsafe { std::mem::transmute(block) };
-- 
2.43.0


From 9fe43aeece5253e263e801563b0f071e24a62850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 07/32] fix: reading of a block from a slice without signature

With skip_sig the fields were still taken from offsets which include the
signature: values were wrong and the read went beyond the end of the slice.
---
 brec_macros/src/codegen/read/block.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 820b3ae..4214067 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -60,13 +60,16 @@ impl ReadFromSlice for Block {
         let mut offset = 0usize;
         let src: syn::Ident = format_ident!("__brec_buf");
         for field in self.fields.iter() {
-            if &field.name == "__sig" {
+            if field.name == FIELD_SIG {
                 let name = format_ident!("{}", FIELD_SIG);
                 fields.push(quote! {
-                    let #name = if skip_sig {
-                        &#const_sig
+                    let (#name, #src) = if skip_sig {
+                        (&#const_sig, #src)
                     } else {
-                        <&[u8; #BLOCK_SIG_LEN]>::try_from(&#src[0usize..#BLOCK_SIG_LEN])?
+                        (
+                            <&[u8; #BLOCK_SIG_LEN]>::try_from(&#src[0usize..#BLOCK_SIG_LEN])?,
+                            &#src[#BLOCK_SIG_LEN..],
+                        )
                     };
                 });
             } else if field.name == FIELD_CRC {
@@ -79,7 +82,9 @@ impl ReadFromSlice for Block {
                 fields.push(field.safe(&src, offset, offset + field.ty.size()));
             }
             fnames.push(format_ident!("{}", field.name));
-            offset += field.ty.size();
+            if field.name != FIELD_SIG {
+                offset += field.ty.size();
+            }
         }
         Ok(quote! {
 
-- 
2.43.0


From 74a95604991c8165a46ad16c49f6561c5f57b7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 08/32] fix: try_read of a block keeps the position of the
 source unless it succeeds

On not enough data and on errors the signature (and more) was left consumed;
an incomplete block in a buffered source was reported as an I/O error.
---
 brec_macros/src/codegen/read/block.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/brec_macros/src/codegen/read/block.rs b/brec_macros/src/codegen/read/block.rs
index 4214067..25fbbe8 100644
--- a/brec_macros/src/codegen/read/block.rs
+++ b/brec_macros/src/codegen/read/block.rs
@@ -148,7 +148,9 @@ impl TryRead for Block {
                     use brec::prelude::*;
                     let mut sig_buf = [0u8; #sig_len];
                     let start_pos = buf.stream_position()?;
-                    let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+                    let len = buf
+                        .seek(std::io::SeekFrom::End(0))?
+                        .saturating_sub(start_pos);
 
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     if len < #sig_len {
@@ -160,9 +162,16 @@ impl TryRead for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
                     if len < #block_name::ssize() {
+                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
                         return Ok(brec::ReadStatus::NotEnoughData(#block_name::ssize() - len));
                     }
-                    Ok(brec::ReadStatus::Success(#block_name::read(buf, true)?))
+                    match #block_name::read(buf, true) {
+                        Ok(blk) => Ok(brec::ReadStatus::Success(blk)),
+                        Err(err) => {
+                            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                            Err(err)
+                        }
+                    }
                 }
             }
         })
@@ -197,9 +206,15 @@ impl TryReadBuffered for Block {
                         return Err(brec::Error::SignatureDismatch);
                     }
 
-                    reader.consume(#sig_len);
-                    let blk = #block_name::read(reader, true);
-                    Ok(brec::ReadStatus::Success(blk?))
+                    let size = #block_name::ssize() as usize;
+                    if bytes.len() < size {
+                        return Ok(brec::ReadStatus::NotEnoughData(
+                            (size - bytes.len()) as u64,
+                        ));
+                    }
+                    let blk = #block_name::read(&mut &bytes[#sig_len..size], true)?;
+                    reader.consume(size);
+                    Ok(brec::ReadStatus::Success(blk))
                 }
             }
         })
-- 
2.43.0


From 5e3e337ad815912b3ae1e9d01277e457031640ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 09/32] fix: reading of Block from a stream recognises all
 types of blocks

Each variant consumed a signature of its own from the stream, so only the
variant tried first could be read.
---
 brec_macros/src/collector/blocks/read.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/brec_macros/src/collector/blocks/read.rs b/brec_macros/src/collector/blocks/read.rs
index 8a46740..782b5ab 100644
--- a/brec_macros/src/collector/blocks/read.rs
+++ b/brec_macros/src/collector/blocks/read.rs
@@ -9,7 +9,10 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
         let fullname = blk.fullname()?;
         let fullpath = blk.fullpath()?;
         variants.push(quote! {
-            match <#fullpath as brec::ReadBlockFrom>::read(buf, false) {
+            match <#fullpath as brec::ReadBlockFrom>::read(
+                &mut std::io::Read::chain(&sig[..], &mut *buf),
+                false,
+            ) {
                 Ok(blk) => return Ok(Block::#fullname(blk)),
                 Err(err) => {
                     if !matches!(err, brec::Error::SignatureDismatch) {
@@ -25,6 +28,9 @@ pub fn read_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                // Signature is read once, because each variant consumes it
+                let mut sig = [0u8; #BLOCK_SIG_LEN];
+                buf.read_exact(&mut sig)?;
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
@@ -38,7 +44,10 @@ pub fn read_block_from(blocks: &[&Block]) -> Result<TokenStream, E> {
         let fullname = blk.fullname()?;
         let fullpath = blk.fullpath()?;
         variants.push(quote! {
-            match <#fullpath as brec::ReadBlockFrom>::read(buf, skip_sig) {
+            match <#fullpath as brec::ReadBlockFrom>::read(
+                &mut std::io::Read::chain(&sig[..], &mut *buf),
+                skip_sig,
+            ) {
                 Ok(blk) => return Ok(Block::#fullname(blk)),
                 Err(err) => {
                     if !matches!(err, brec::Error::SignatureDismatch) {
@@ -54,6 +63,12 @@ pub fn read_block_from(blocks: &[&Block]) -> Result<TokenStream, E> {
             where
                 Self: Sized,
             {
+                // Signature is read once, because each variant consumes it
+                let mut sig = Vec::new();
+                if !skip_sig {
+                    sig.resize(#BLOCK_SIG_LEN, 0u8);
+                    buf.read_exact(&mut sig)?;
+                }
                 #(#variants)*
                 Err(brec::Error::SignatureDismatch)
             }
-- 
2.43.0


From f7e594cd138efe3202b08f1256d963f7e5879369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:25 +0000
Subject: [PATCH 10/32] fix: try_read of headers keeps the position of the
 source unless it succeeds

Packet and payload headers left the source in the middle of an invalid header;
the buffered variant of the packet header consumed twice the header length.
---
 brec/src/packet/header/read.rs     | 16 ++++++++++++----
 brec/src/payload/header/read.rs    | 10 ++++++++--
 brec/src/payload/header/sreader.rs |  8 +++++++-
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/brec/src/packet/header/read.rs b/brec/src/packet/header/read.rs
index 3ddd873..2b95743 100644
--- a/brec/src/packet/header/read.rs
+++ b/brec/src/packet/header/read.rs
@@ -113,14 +113,22 @@ impl TryReadFrom for PacketHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         if len < PacketHeader::ssize() {
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - len));
         }
 
-        Ok(ReadStatus::Success(PacketHeader::read(buf)?))
+        match PacketHeader::read(buf) {
+            Ok(header) => Ok(ReadStatus::Success(header)),
+            Err(err) => {
+                buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                Err(err)
+            }
+        }
     }
 }
 
@@ -145,8 +153,8 @@ impl TryReadFromBuffered for PacketHeader {
             ));
         }
 
-        let header = ReadStatus::Success(PacketHeader::read(reader)?);
+        let header = PacketHeader::read_from_slice(bytes, false)?;
         reader.consume(PacketHeader::ssize() as usize);
-        Ok(header)
+        Ok(ReadStatus::Success(header))
     }
 }
diff --git a/brec/src/payload/header/read.rs b/brec/src/payload/header/read.rs
index 2414c15..9d9c319 100644
--- a/brec/src/payload/header/read.rs
+++ b/brec/src/payload/header/read.rs
@@ -64,7 +64,10 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(sig_len)?;
+        if let Err(err) = ByteBlock::is_valid_capacity(sig_len) {
+            reader.reset()?;
+            return Err(err);
+        }
         let sig = match reader.next_bytes(sig_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
@@ -75,7 +78,10 @@ impl TryReadFrom for PayloadHeader {
             NextChunk::U8(v) => v,
             _ => return Err(Error::FailToReadPayloadHeader),
         };
-        ByteBlock::is_valid_capacity(crc_len)?;
+        if let Err(err) = ByteBlock::is_valid_capacity(crc_len) {
+            reader.reset()?;
+            return Err(err);
+        }
         let crc = match reader.next_bytes(crc_len as u64)? {
             NextChunk::NotEnoughData(n) => return Ok(ReadStatus::NotEnoughData(n)),
             NextChunk::Bytes(v) => v,
diff --git a/brec/src/payload/header/sreader.rs b/brec/src/payload/header/sreader.rs
index efa8ef0..7bee7a0 100644
--- a/brec/src/payload/header/sreader.rs
+++ b/brec/src/payload/header/sreader.rs
@@ -53,7 +53,7 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
     /// An initialized reader wrapper ready for safe, incremental reads.
     pub fn new(buf: &'a mut T) -> Result<Self, Error> {
         let spos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - spos;
+        let len = buf.seek(std::io::SeekFrom::End(0))?.saturating_sub(spos);
         buf.seek(std::io::SeekFrom::Start(spos))?;
         Ok(Self {
             spos,
@@ -63,6 +63,12 @@ impl<'a, T: std::io::Read + std::io::Seek> SafeHeaderReader<'a, T> {
         })
     }
 
+    /// Resets the stream to the position where reading has been started.
+    pub fn reset(&mut self) -> Result<(), Error> {
+        self.buf.seek(std::io::SeekFrom::Start(self.spos))?;
+        Ok(())
+    }
+
     /// Attempts to read a single `u8` from the stream.
     ///
     /// If insufficient data is available, resets the stream and returns
-- 
2.43.0


From d8d80bed68b60ae7db1bb331d8ea4a27676bc4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:25 +0000
Subject: [PATCH 11/32] fix: try_read of a packet counts its header and keeps
 the position of the source

The length of the header was not considered in the check of available data, so
an incomplete packet was reported as an error or with a wrong amount of missing
bytes; the position was not restored on not enough data and on several errors.
---
 brec/src/packet/read.rs | 51 ++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 3e68fd6..26d04f4 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -82,14 +82,18 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let available = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let available = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         let header = match <PacketHeader as TryReadFrom>::try_read(buf)? {
             ReadStatus::NotEnoughData(needed) => return Ok(ReadStatus::NotEnoughData(needed)),
             ReadStatus::Success(header) => header,
         };
-        if header.size > available {
-            return Ok(ReadStatus::NotEnoughData(header.size - available));
+        let packet_size = PacketHeader::ssize().saturating_add(header.size);
+        if packet_size > available {
+            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+            return Ok(ReadStatus::NotEnoughData(packet_size - available));
         }
         let mut pkg = PacketDef::default();
         let mut read = 0;
@@ -105,8 +109,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                         }
                     }
                     Ok(ReadStatus::NotEnoughData(needed)) => {
+                        // Whole packet is available, it's an error of data
                         buf.seek(std::io::SeekFrom::Start(start_pos))?;
-                        return Ok(ReadStatus::NotEnoughData(needed));
+                        return Err(Error::NotEnoughData(needed as usize));
                     }
                     Err(err) => {
                         buf.seek(std::io::SeekFrom::Start(start_pos))?;
@@ -121,15 +126,15 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             }
         }
         if header.payload {
-            match <PayloadHeader as TryReadFrom>::try_read(buf)? {
-                ReadStatus::Success(header) => {
+            match <PayloadHeader as TryReadFrom>::try_read(buf) {
+                Ok(ReadStatus::Success(header)) => {
                     match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &header) {
                         Ok(ReadStatus::Success(payload)) => {
                             pkg.payload = Some(payload);
                         }
                         Ok(ReadStatus::NotEnoughData(needed)) => {
                             buf.seek(std::io::SeekFrom::Start(start_pos))?;
-                            return Ok(ReadStatus::NotEnoughData(needed));
+                            return Err(Error::NotEnoughData(needed as usize));
                         }
                         Err(err) => {
                             buf.seek(std::io::SeekFrom::Start(start_pos))?;
@@ -137,10 +142,14 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                         }
                     }
                 }
-                ReadStatus::NotEnoughData(needed) => {
+                Ok(ReadStatus::NotEnoughData(needed)) => {
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     return Err(Error::NotEnoughData(needed as usize));
                 }
+                Err(err) => {
+                    buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                    return Err(err);
+                }
             }
         }
         Ok(ReadStatus::Success(pkg))
@@ -152,8 +161,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
 /// This is similar to `TryReadFrom`, but works with non-seekable buffered sources (e.g., network streams).
 ///
 /// # Behavior
-/// - Reads header directly from `BufRead::fill_buf()` and consumes it.
-/// - Ensures that `header.size` bytes are available before decoding.
+/// - Reads header and body directly from `BufRead::fill_buf()`; consumes them on success only.
+/// - Ensures that whole packet is available before decoding.
 /// - Supports partial reads using `ReadStatus::NotEnoughData(...)`.
 ///
 /// # Returns
@@ -177,16 +186,17 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
             return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - available));
         }
         let header = PacketHeader::read_from_slice(bytes, false)?;
-        if header.size > available {
-            return Ok(ReadStatus::NotEnoughData(header.size - available));
+        let packet_size = PacketHeader::ssize().saturating_add(header.size);
+        if packet_size > available {
+            return Ok(ReadStatus::NotEnoughData(packet_size - available));
         }
-        reader.consume(PacketHeader::ssize() as usize);
+        let mut body = &bytes[PacketHeader::ssize() as usize..packet_size as usize];
         let mut pkg = PacketDef::default();
         let mut read = 0;
         if header.blocks_len > 0 {
             let mut iterations = 0;
             loop {
-                match <B as TryReadFromBuffered>::try_read(reader)? {
+                match <B as TryReadFromBuffered>::try_read(&mut body)? {
                     ReadStatus::Success(blk) => {
                         read += blk.size();
                         pkg.blocks.push(blk);
@@ -195,7 +205,8 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                         }
                     }
                     ReadStatus::NotEnoughData(needed) => {
-                        return Ok(ReadStatus::NotEnoughData(needed))
+                        // Whole packet is available, it's an error of data
+                        return Err(Error::NotEnoughData(needed as usize));
                     }
                 }
                 iterations += 1;
@@ -205,15 +216,16 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
             }
         }
         if header.payload {
-            match <PayloadHeader as TryReadFromBuffered>::try_read(reader)? {
+            match <PayloadHeader as TryReadFromBuffered>::try_read(&mut body)? {
                 ReadStatus::Success(header) => {
-                    reader.consume(header.size());
-                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(reader, &header)? {
+                    body = &body[header.size()..];
+                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(&mut body, &header)?
+                    {
                         ReadStatus::Success(payload) => {
                             pkg.payload = Some(payload);
                         }
                         ReadStatus::NotEnoughData(needed) => {
-                            return Ok(ReadStatus::NotEnoughData(needed))
+                            return Err(Error::NotEnoughData(needed as usize))
                         }
                     }
                 }
@@ -222,6 +234,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                 }
             }
         }
+        reader.consume(packet_size as usize);
         Ok(ReadStatus::Success(pkg))
     }
 }
-- 
2.43.0


From 332b548b0386cd3778d6106400e8e6f968d166ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:27 +0000
Subject: [PATCH 12/32] fix: memory is requested along with data, not by
 announced sizes

Sizes from headers were used for allocation without any check, so a few bytes
of invalid data could request gigabytes (or abort); blocks longer than the
packet made filtered() panic.
---
 brec/src/packet/mod.rs      | 12 ++++++++----
 brec/src/packet/read.rs     |  3 +--
 brec/src/packet/reader.rs   |  3 +--
 brec/src/traits/read/mod.rs | 15 +++++++++++++--
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index 34b1f5a..0ed085f 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -126,13 +126,17 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         let header = <PacketHeader as ReadFrom>::read(reader)?;
         let mut read = 0;
         let mut blocks = Vec::new();
-        let mut packet_buffer = vec![0; header.size as usize];
-        reader.read_exact(&mut packet_buffer)?;
+        let packet_buffer = read_bytes(reader, header.size)?;
         let blocks_len = header.blocks_len as usize;
+        if blocks_len > packet_buffer.len() {
+            return Err(Error::NotEnoughData(blocks_len - packet_buffer.len()));
+        }
         if blocks_len > 0 {
             loop {
-                let blk =
-                    <BR as ReadBlockFromSlice>::read_from_slice(&packet_buffer[read..], false)?;
+                let blk = <BR as ReadBlockFromSlice>::read_from_slice(
+                    &packet_buffer[read..blocks_len],
+                    false,
+                )?;
                 read += blk.size() as usize;
                 blocks.push(blk);
                 if read == blocks_len {
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 26d04f4..a5e1623 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -24,8 +24,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
         let header = PacketHeader::read(buf)?;
         let mut pkg = PacketDef::default();
         let mut read = 0;
-        let mut inner = vec![0u8; header.size as usize];
-        buf.read_exact(&mut inner)?;
+        let mut inner = read_bytes(buf, header.size)?;
         let mut reader = std::io::Cursor::new(&mut inner);
         if header.blocks_len > 0 {
             let mut iterations = 0;
diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 0a3d098..745a831 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -335,8 +335,7 @@ impl<
                         // Beginning of header might be in the last bytes only
                         let litter = available + 1 - PacketHeader::ssize() as usize;
                         self.rules.ignore(&buffer[..litter])?;
-                        self.recent =
-                            HeaderReadState::Refill(Some((buffer[litter..].to_vec(), 1)));
+                        self.recent = HeaderReadState::Refill(Some((buffer[litter..].to_vec(), 1)));
                         self.inner.consume(available);
                         return Ok(NextPacket::NotFound);
                     }
diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index b5e9ec1..477af2e 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -3,9 +3,21 @@ mod status;
 
 use crate::*;
 use payload::*;
+use std::io::Read;
 pub use reader::*;
 pub use status::*;
 
+/// Reads exactly `len` bytes from a stream.
+///
+/// Memory is requested along with data, because `len` comes from the stream and might be invalid.
+pub(crate) fn read_bytes<T: std::io::Read>(buf: &mut T, len: u64) -> std::io::Result<Vec<u8>> {
+    let mut bytes = Vec::with_capacity(len.min(64 * 1024) as usize);
+    if (std::io::Read::take(buf, len).read_to_end(&mut bytes)? as u64) < len {
+        return Err(std::io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(bytes)
+}
+
 /// Trait for reading a type directly from any `Read` stream.
 ///
 /// Used for deserializing simple binary structures.
@@ -72,8 +84,7 @@ pub trait ReadPayloadFrom<
         if header.sig != T::ssig() {
             return Err(Error::SignatureDismatch);
         }
-        let mut bytes = vec![0u8; header.payload_len()];
-        buf.read_exact(&mut bytes)?;
+        let bytes = read_bytes(buf, header.payload_len() as u64)?;
         let value = T::decode(&bytes)?;
         let crc = value.crc()?;
         if header.crc != crc {
-- 
2.43.0


From f6530436046b8dcecf8a4232bed312dcc6dae058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:28 +0000
Subject: [PATCH 13/32] fix: limit of 255 blocks per packet is the same
 everywhere

Packets with more blocks were written without an error (and couldn't be read
back); 256 blocks were accepted by some reading methods only.
---
 brec/src/packet/header/mod.rs | 9 ++++++++-
 brec/src/packet/mod.rs        | 3 +++
 brec/src/packet/read.rs       | 6 +++---
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/brec/src/packet/header/mod.rs b/brec/src/packet/header/mod.rs
index 2d25e4a..df006b3 100644
--- a/brec/src/packet/header/mod.rs
+++ b/brec/src/packet/header/mod.rs
@@ -62,11 +62,18 @@ impl PacketHeader {
     /// A new `PacketHeader` with computed `size`, `blocks_len`, `payload` flag, and CRC.
     ///
     /// # Errors
-    /// Returns an `std::io::Error` if computing the payload size fails.
+    /// Returns an `std::io::Error` if computing the payload size fails or if there are more blocks
+    /// than allowed (`MAX_BLOCKS_COUNT`).
     pub fn new<B: BlockDef, Inner: PayloadInnerDef>(
         blocks: &[B],
         payload: Option<&Inner>,
     ) -> std::io::Result<Self> {
+        if blocks.len() > MAX_BLOCKS_COUNT as usize {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                Error::MaxBlocksCount.to_string(),
+            ));
+        }
         let blocks_len: u64 = blocks.iter().map(|blk| blk.size()).sum();
         let payload_len: u64 = payload
             .as_ref()
diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index 0ed085f..0727d06 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -133,6 +133,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         }
         if blocks_len > 0 {
             loop {
+                if blocks.len() == MAX_BLOCKS_COUNT as usize {
+                    return Err(Error::MaxBlocksCount);
+                }
                 let blk = <BR as ReadBlockFromSlice>::read_from_slice(
                     &packet_buffer[read..blocks_len],
                     false,
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index a5e1623..1ac5972 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -42,7 +42,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     return Err(Error::MaxBlocksCount);
                 }
             }
@@ -118,7 +118,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     buf.seek(std::io::SeekFrom::Start(start_pos))?;
                     return Err(Error::MaxBlocksCount);
                 }
@@ -209,7 +209,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
                     }
                 }
                 iterations += 1;
-                if iterations > MAX_BLOCKS_COUNT as usize {
+                if iterations >= MAX_BLOCKS_COUNT as usize {
                     return Err(Error::MaxBlocksCount);
                 }
             }
-- 
2.43.0


From c05e40bbacab49fce210dda5287bb2cb44dea8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:28 +0000
Subject: [PATCH 14/32] fix: write_vectored_all continues after an interruption

Like std::io::Write::write_all, it has to retry on ErrorKind::Interrupted;
part of data was already written at this moment.
---
 brec/src/traits/write/slices.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brec/src/traits/write/slices.rs b/brec/src/traits/write/slices.rs
index ea1770c..e18355f 100644
--- a/brec/src/traits/write/slices.rs
+++ b/brec/src/traits/write/slices.rs
@@ -100,7 +100,11 @@ impl<'a> IoSlices<'a> {
                 break;
             }
 
-            let just_written = buf.write_vectored(&in_work)?;
+            let just_written = match buf.write_vectored(&in_work) {
+                Ok(written) => written,
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => continue,
+                Err(err) => return Err(err),
+            };
             written += just_written;
 
             if just_written == 0 {
-- 
2.43.0


From 5eb5b5a1f0bf8bad46ff22b6ed2afd5d3c15c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:28 +0000
Subject: [PATCH 15/32] fix: size of a payload with a CRC longer than 4 bytes

Payload enum always reported 4 bytes of CRC, so the size in the header of a
packet was wrong and such packets couldn't be read back.
---
 brec/src/payload/header/mod.rs              | 2 +-
 brec/src/traits/props/mod.rs                | 7 +++++++
 brec_macros/src/collector/payloads/props.rs | 9 +++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/brec/src/payload/header/mod.rs b/brec/src/payload/header/mod.rs
index d9f37a5..9e48205 100644
--- a/brec/src/payload/header/mod.rs
+++ b/brec/src/payload/header/mod.rs
@@ -84,7 +84,7 @@ impl PayloadHeader {
     pub fn ssize<T: PayloadSignature + PayloadSize + PayloadCrc>(
         src: &T,
     ) -> std::io::Result<usize> {
-        Ok(1 + src.sig().size() + 1 + T::crc_size() + std::mem::size_of::<u32>())
+        Ok(1 + src.sig().size() + 1 + src.crc_len() + std::mem::size_of::<u32>())
     }
 
     /// Serializes the header into a binary vector.
diff --git a/brec/src/traits/props/mod.rs b/brec/src/traits/props/mod.rs
index 0aee2a4..1d8a283 100644
--- a/brec/src/traits/props/mod.rs
+++ b/brec/src/traits/props/mod.rs
@@ -50,6 +50,13 @@ where
     fn crc_size() -> usize {
         4
     }
+
+    /// Returns the length of CRC of this payload.
+    ///
+    /// Differs from `crc_size` for types, which combine several payloads.
+    fn crc_len(&self) -> usize {
+        Self::crc_size()
+    }
 }
 
 /// Trait for types that can return a payload signature dynamically.
diff --git a/brec_macros/src/collector/payloads/props.rs b/brec_macros/src/collector/payloads/props.rs
index 3ef9a83..9a38043 100644
--- a/brec_macros/src/collector/payloads/props.rs
+++ b/brec_macros/src/collector/payloads/props.rs
@@ -62,9 +62,11 @@ pub fn sig(payloads: &[&Payload]) -> Result<TokenStream, E> {
 
 pub fn crc(payloads: &[&Payload]) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
+    let mut lens = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => pl.crc()});
+        lens.push(quote! {Payload::#fullname(pl) => pl.crc_len()});
     }
     Ok(quote! {
         impl brec::PayloadCrc for Payload {
@@ -75,6 +77,13 @@ pub fn crc(payloads: &[&Payload]) -> Result<TokenStream, E> {
                     Payload::String(pl) => pl.crc(),
                 }
             }
+            fn crc_len(&self) -> usize {
+                match self {
+                    #(#lens,)*
+                    Payload::Bytes(pl) => pl.crc_len(),
+                    Payload::String(pl) => pl.crc_len(),
+                }
+            }
         }
     })
 }
-- 
2.43.0


From 35011786486ac59ffdb2e36818005a270ff37107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:41 +0000
Subject: [PATCH 16/32] fix: BufferedReader doesn't lose or miscount preloaded
 data

Repeated refill() dropped data preloaded before, an error of the inner reader
dropped preloaded data handed out by the same read(), and consume() over the
end of the preload didn't count preloaded bytes as consumed.
---
 brec/src/traits/read/reader.rs | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/brec/src/traits/read/reader.rs b/brec/src/traits/read/reader.rs
index b084427..64b77ba 100644
--- a/brec/src/traits/read/reader.rs
+++ b/brec/src/traits/read/reader.rs
@@ -58,7 +58,6 @@ pub struct BufferedReader<'a, R: std::io::BufRead> {
     inner: &'a mut R,
     buffer: Vec<u8>,
     filled: Vec<u8>,
-    inner_len: usize,
     consumed: usize,
 }
 
@@ -105,7 +104,6 @@ impl<'a, R: std::io::BufRead> BufferedReader<'a, R> {
             inner,
             buffer: Vec::new(),
             filled: Vec::new(),
-            inner_len: 0,
             consumed: 0,
         }
     }
@@ -143,8 +141,10 @@ impl<'a, R: std::io::BufRead> BufferedReader<'a, R> {
     /// buffered_reader.refill()?;
     /// ```
     pub fn refill(&mut self) -> std::io::Result<()> {
-        self.buffer = self.inner.fill_buf()?.to_vec();
-        self.inner.consume(self.buffer.len());
+        let inner = self.inner.fill_buf()?;
+        let len = inner.len();
+        self.buffer.extend_from_slice(inner);
+        self.inner.consume(len);
         Ok(())
     }
 
@@ -174,8 +174,12 @@ impl<R: std::io::BufRead> std::io::Read for BufferedReader<'_, R> {
             total_read += to_copy;
         }
         if total_read < buf.len() {
-            let from_inner = self.inner.read(&mut buf[total_read..])?;
-            total_read += from_inner;
+            match self.inner.read(&mut buf[total_read..]) {
+                Ok(from_inner) => total_read += from_inner,
+                Err(err) if total_read == 0 => return Err(err),
+                // Preloaded data is in "buf" already and shouldn't be lost
+                Err(_) => {}
+            }
         }
         self.consumed += total_read;
         Ok(total_read)
@@ -195,7 +199,6 @@ impl<R: std::io::BufRead> std::io::BufRead for BufferedReader<'_, R> {
             return self.inner.fill_buf();
         }
         let inner = self.inner.fill_buf()?;
-        self.inner_len = inner.len();
         self.filled.clear();
         self.filled.reserve(inner.len() + self.buffer.len());
         self.filled.extend_from_slice(&self.buffer);
@@ -224,18 +227,9 @@ impl<R: std::io::BufRead> std::io::BufRead for BufferedReader<'_, R> {
             return;
         }
 
+        self.consumed += amt;
         amt -= buf_len;
         self.buffer.clear();
-
-        if amt <= self.inner_len {
-            self.inner.consume(amt);
-            self.inner_len -= amt;
-            self.consumed += amt;
-        } else {
-            let leftover = amt - self.inner_len;
-            self.inner_len = 0;
-            self.inner.consume(leftover);
-            self.consumed += leftover;
-        }
+        self.inner.consume(amt);
     }
 }
-- 
2.43.0


From 6ca9dab1fafe676747a810bef163cb2e617d6f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:06 +0000
Subject: [PATCH 17/32] fix: slots with an impossible capacity or lengths are
 refused

---
 brec/src/storage/slot/header.rs | 16 +++++++++++++++-
 brec/src/storage/slot/mod.rs    | 12 ++++++++++++
 brec/src/storage/slot/read.rs   | 10 ++++++----
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/brec/src/storage/slot/header.rs b/brec/src/storage/slot/header.rs
index f1d8114..6c02627 100644
--- a/brec/src/storage/slot/header.rs
+++ b/brec/src/storage/slot/header.rs
@@ -42,6 +42,12 @@ impl ReadFrom for SlotHeader {
         let mut capacity = [0u8; 8usize];
         buf.read_exact(&mut capacity)?;
         let capacity = u64::from_le_bytes(capacity);
+        if capacity != DEFAULT_SLOT_CAPACITY as u64 {
+            return Err(Error::InvalidCapacity(
+                capacity as usize,
+                DEFAULT_SLOT_CAPACITY.to_string(),
+            ));
+        }
 
         Ok(SlotHeader { capacity })
     }
@@ -61,7 +67,9 @@ impl TryReadFrom for SlotHeader {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < SlotHeader::ssize() {
             return Ok(ReadStatus::NotEnoughData(SlotHeader::ssize()));
@@ -77,6 +85,12 @@ impl TryReadFrom for SlotHeader {
         let mut capacity = [0u8; 8usize];
         buf.read_exact(&mut capacity)?;
         let capacity = u64::from_le_bytes(capacity);
+        if capacity != DEFAULT_SLOT_CAPACITY as u64 {
+            return Err(Error::InvalidCapacity(
+                capacity as usize,
+                DEFAULT_SLOT_CAPACITY.to_string(),
+            ));
+        }
 
         Ok(ReadStatus::Success(SlotHeader { capacity }))
     }
diff --git a/brec/src/storage/slot/mod.rs b/brec/src/storage/slot/mod.rs
index 30f7390..793a07c 100644
--- a/brec/src/storage/slot/mod.rs
+++ b/brec/src/storage/slot/mod.rs
@@ -139,6 +139,18 @@ impl Slot {
         self.lenghts.iter().position(|ln| ln == &0)
     }
 
+    /// Checks that the lengths describe a region which may exist: used entries go one by one
+    /// from the beginning of the slot and their sum is a valid offset.
+    pub fn is_valid(&self) -> bool {
+        let used = self.lenghts.iter().take_while(|ln| **ln > 0).count();
+        self.lenghts[used..].iter().all(|ln| *ln == 0)
+            && self
+                .lenghts
+                .iter()
+                .try_fold(0u64, |sum, ln| sum.checked_add(*ln))
+                .is_some_and(|sum| sum <= i64::MAX as u64)
+    }
+
     /// Recomputes and stores the CRC based on current contents.
     pub fn overwrite_crc(&mut self) {
         self.crc = self.crc();
diff --git a/brec/src/storage/slot/read.rs b/brec/src/storage/slot/read.rs
index 09da083..9438fea 100644
--- a/brec/src/storage/slot/read.rs
+++ b/brec/src/storage/slot/read.rs
@@ -32,7 +32,7 @@ impl ReadFrom for Slot {
         buf.read_exact(&mut crc)?;
 
         let slot = Slot::new(lenghts, header.capacity, crc);
-        if slot.crc == slot.crc() {
+        if slot.crc == slot.crc() && slot.is_valid() {
             Ok(slot)
         } else {
             Err(Error::CrcDismatch)
@@ -60,7 +60,9 @@ impl TryReadFrom for Slot {
         Self: Sized,
     {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
 
         let header = match SlotHeader::try_read(buf)? {
@@ -73,7 +75,7 @@ impl TryReadFrom for Slot {
             + std::mem::size_of::<u32>() as u64;
         if len < needed {
             buf.seek(std::io::SeekFrom::Start(start_pos))?;
-            return Ok(ReadStatus::NotEnoughData(PacketHeader::ssize() - needed));
+            return Ok(ReadStatus::NotEnoughData(needed - len));
         }
 
         let mut lenghts = Vec::with_capacity(header.capacity as usize);
@@ -87,7 +89,7 @@ impl TryReadFrom for Slot {
         buf.read_exact(&mut crc)?;
 
         let slot = Slot::new(lenghts, header.capacity, crc);
-        if slot.crc == slot.crc() {
+        if slot.crc == slot.crc() && slot.is_valid() {
             Ok(ReadStatus::Success(slot))
         } else {
             Err(Error::CrcDismatch)
-- 
2.43.0


From 7dc901d16b6a54985c7ac6169e6779ff536eb337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:06 +0000
Subject: [PATCH 18/32] fix: opening of a storage ignores a rest of interrupted
 writing

---
 brec/src/storage/reader/mod.rs | 6 ++++++
 brec/src/storage/writer/mod.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index 15dfb84..f280ec3 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -56,8 +56,14 @@ impl<
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
                     let position = offset;
+                    let is_last = !slot.is_full();
                     offset += slot.size() + slot.width();
                     self.slots.push(AnchoredSlot::new(slot, position));
+                    if is_last {
+                        // A slot can follow only a full one. Data behind are a rest of
+                        // interrupted writing
+                        break;
+                    }
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
                     break;
diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index e7dce73..1613b9f 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -53,8 +53,14 @@ impl<
             self.inner.seek(std::io::SeekFrom::Start(offset))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
+                    let is_last = !slot.is_full();
                     offset += slot.size() + slot.width();
                     self.slots.push(slot);
+                    if is_last {
+                        // A slot can follow only a full one. Data behind are a rest of
+                        // interrupted writing
+                        break;
+                    }
                 }
                 Ok(ReadStatus::NotEnoughData(_needed)) => {
                     break;
-- 
2.43.0


From f39754f5e542b8b269d2214ea6996b9c51347630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:50 +0000
Subject: [PATCH 19/32] fix: reload of a storage counts added packets

---
 brec/src/storage/locator.rs    |   1 +
 brec/src/storage/reader/mod.rs | 112 ++++++++++-----------------------
 2 files changed, 33 insertions(+), 80 deletions(-)

diff --git a/brec/src/storage/locator.rs b/brec/src/storage/locator.rs
index 6eb3e82..279d562 100644
--- a/brec/src/storage/locator.rs
+++ b/brec/src/storage/locator.rs
@@ -62,6 +62,7 @@ impl FreeSlotLocator {
 
     pub fn setup<'a, I: Iterator<Item = &'a Slot>>(&mut self, slots: I) {
         self.next = 0;
+        self.slot_offset = 0;
         for slot in slots {
             if slot.get_free_slot_offset().is_some() {
                 break;
diff --git a/brec/src/storage/reader/mod.rs b/brec/src/storage/reader/mod.rs
index f280ec3..6523208 100644
--- a/brec/src/storage/reader/mod.rs
+++ b/brec/src/storage/reader/mod.rs
@@ -82,71 +82,44 @@ impl<
         Ok(self)
     }
 
+    /// Reads again the last known slot (if it has free space) and slots added after it.
+    ///
+    /// # Returns
+    /// * `Ok(usize)` - Number of packets added since the last loading.
+    /// * `Err(Error)` - Failure while loading storage.
     pub fn reload(&mut self) -> Result<usize, Error> {
-        let mut source_pos;
-
-        let last = match self.slots.last().map(|v| (v, v.inner.expand())) {
-            Some((last, (Some(offset), Some(index), crc))) => {
-                source_pos = last.offset;
-                Some((offset, index, crc))
-            }
-            Some((last, (None, None, _))) => {
-                // Slot is full, because no free offset or/and index
-                source_pos = last.offset + last.inner.width() + last.inner.size();
-                None
-            }
-            _ => {
-                // No slots
-                source_pos = 0;
-                None
+        let before = self.count();
+        // The last slot should be read again only if it has free space
+        let (mut source_pos, refresh) = match self.slots.last() {
+            Some(last) if last.inner.is_full() => {
+                (last.offset + last.inner.size() + last.inner.width(), false)
             }
+            Some(last) => (last.offset, true),
+            None => (0, false),
         };
-        let count = self.slots.len();
+        // If reloading fails, known slots stay as they are
+        let mut loaded: Vec<AnchoredSlot> = Vec::new();
         loop {
             self.inner.seek(std::io::SeekFrom::Start(source_pos))?;
             match <Slot as TryReadFrom>::try_read(&mut self.inner) {
                 Ok(ReadStatus::Success(slot)) => {
-                    if let Some((_, _, crc)) = last
-                        && self.slots.len() == count
-                    {
-                        if crc == slot.crc {
-                            return Ok(0);
-                        }
-                        if let Some(lst) = self.slots.get_mut(count.saturating_sub(1)) {
-                            lst.inner = slot;
-                            if lst.inner.get_free_slot_index().is_none() {
-                                // Slot is full, move source position to the end of this slot
-                                source_pos += lst.inner.size() + lst.inner.width();
-                            } else {
-                                // Slot has free space, so we can stop here
-                                break;
-                            }
-                        } else {
-                            return Err(Error::AccessSlot(count.saturating_sub(1)));
-                        }
-                    } else {
-                        let position = source_pos;
-                        source_pos += slot.size() + slot.width();
-                        self.slots.push(AnchoredSlot::new(slot, position));
+                    let position = source_pos;
+                    let is_last = !slot.is_full();
+                    source_pos += slot.size() + slot.width();
+                    loaded.push(AnchoredSlot::new(slot, position));
+                    if is_last {
+                        // Slot has free space, so we can stop here
+                        break;
                     }
                 }
                 Ok(ReadStatus::NotEnoughData(needed)) => {
-                    match (last.is_none(), self.slots.len() == count) {
-                        (true, true) => {
-                            return Ok(0);
-                        }
-                        (false, true) => {
-                            if needed == SlotHeader::ssize() {
-                                // No space in last slot, no slot after
-                                break;
-                            }
-                            // Cannot read again last slot
-                            return Err(Error::DamagedSlot(Box::new(Error::NotEnoughData(
-                                needed as usize,
-                            ))));
-                        }
-                        (false, false) | (true, false) => break,
+                    if refresh && loaded.is_empty() {
+                        // Cannot read again last slot
+                        return Err(Error::DamagedSlot(Box::new(Error::NotEnoughData(
+                            needed as usize,
+                        ))));
                     }
+                    break;
                 }
                 Err(Error::CrcDismatch) => {
                     return Err(Error::DamagedSlot(Box::new(Error::CrcDismatch)));
@@ -157,34 +130,13 @@ impl<
                 Err(err) => return Err(err),
             }
         }
-
-        let read = match (last, self.slots.len() == count, self.slots.last()) {
-            (Some((_, index, _)), true, Some(last)) => {
-                // Last slot has been update, no new slot has been added
-                if let Some(idx) = last.inner.get_free_slot_index() {
-                    idx.saturating_sub(index)
-                } else {
-                    DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                }
-            }
-            (Some((_, index, _)), false, Some(last)) => {
-                // Last slot has been updated, but no new slot has been added
-                DEFAULT_SLOT_CAPACITY.saturating_sub(index)
-                    + last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count) * DEFAULT_SLOT_CAPACITY
-            }
-            (None, false, Some(last)) => {
-                // In cases:
-                // - No last slot, but new slots have been added
-                // - Last slot is full, but new slots have been added
-                last.inner.get_free_slot_index().unwrap_or(0)
-                    + self.slots.len().saturating_sub(count + 1) * DEFAULT_SLOT_CAPACITY
-            }
-            _ => 0,
-        };
+        if refresh {
+            self.slots.pop();
+        }
+        self.slots.append(&mut loaded);
         self.locator
             .setup(self.slots.iter().map(|anchored| &anchored.inner));
-        Ok(read)
+        Ok(self.count().saturating_sub(before))
     }
 
     /// Adds a packet filter or processing rule.
-- 
2.43.0


From 5b7115017992853ae782df9b90a5bad41bdc9091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:04 +0000
Subject: [PATCH 20/32] fix: iteration over a storage survives damages and
 continues after seek

---
 brec/src/storage/reader/iters.rs | 141 ++++++++++++++++++-------------
 1 file changed, 84 insertions(+), 57 deletions(-)

diff --git a/brec/src/storage/reader/iters.rs b/brec/src/storage/reader/iters.rs
index 3b14d35..fa40c13 100644
--- a/brec/src/storage/reader/iters.rs
+++ b/brec/src/storage/reader/iters.rs
@@ -1,13 +1,16 @@
-use std::{
-    io::{BufRead, Cursor},
-    ops::RangeInclusive,
-};
+use std::io::{Cursor, Read};
 
 use crate::*;
 
-/// Iterator over a sequence of `Slot`s, yielding the byte ranges that contain actual packet data.
+/// Location of packets stored in one slot: offset of the first one and lengths of all of them.
+pub struct PacketsLocation<'a> {
+    start: u64,
+    lenghts: &'a [u64],
+}
+
+/// Iterator over a sequence of `Slot`s, yielding locations of the stored packets.
 ///
-/// Each iteration returns a `RangeInclusive<u64>` representing the location of the used data region
+/// Each iteration returns a `PacketsLocation` representing the location of the used data region
 /// within the slot. The offset includes the size of the slot header and accounts for cumulative offset.
 ///
 /// The iterator skips over empty slots and automatically adjusts for the internal layout.
@@ -25,7 +28,7 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
     }
 
     /// Seeks to the specified packet index across the slots.
-    pub fn from(&mut self, packet: usize) -> Result<RangeInclusive<u64>, Error> {
+    pub fn from(&mut self, packet: usize) -> Result<PacketsLocation<'a>, Error> {
         let mut count = 0;
         let mut target = packet;
         for (idx, slot) in self.slots.by_ref().enumerate() {
@@ -47,10 +50,12 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
                     packet,
                 ));
             };
-            return Ok(RangeInclusive::new(
-                self.offset + slot.size() + packet_offset,
-                self.offset + slot.size() + slot.width(),
-            ));
+            let location = PacketsLocation {
+                start: self.offset + slot.size() + packet_offset,
+                lenghts: &slot.lenghts[target..slot.count()],
+            };
+            self.offset += slot.size() + slot.width();
+            return Ok(location);
         }
         if count == 0 {
             Err(Error::EmptySource)
@@ -61,29 +66,69 @@ impl<'a, I: Iterator<Item = &'a Slot>> PacketsLocatorIterator<'a, I> {
 }
 
 impl<'a, I: Iterator<Item = &'a Slot>> Iterator for PacketsLocatorIterator<'a, I> {
-    type Item = RangeInclusive<u64>;
+    type Item = PacketsLocation<'a>;
 
-    /// Returns the next occupied range of packet data, or `None` if finished.
+    /// Returns the next location of packet data, or `None` if finished.
     fn next(&mut self) -> Option<Self::Item> {
         let slot = self.slots.next()?;
         let slot_width = slot.width();
         if slot_width == 0 {
             return None;
         }
-        let location = RangeInclusive::new(
-            self.offset + slot.size(),
-            self.offset + slot_width + slot.size(),
-        );
+        let location = PacketsLocation {
+            start: self.offset + slot.size(),
+            lenghts: &slot.lenghts[..slot.count()],
+        };
         self.offset += slot_width + slot.size();
         Some(location)
     }
 }
 
+/// Data of packets stored in one slot. Packets are taken by lengths from the slot, so a damaged
+/// packet doesn't affect others.
+#[derive(Default)]
+struct PacketsBuffer<'a> {
+    data: Vec<u8>,
+    offset: usize,
+    lenghts: &'a [u64],
+}
+
+impl<'a> PacketsBuffer<'a> {
+    /// Reads data of packets from the given location.
+    ///
+    /// If the source is shorter than it has to be, takes available data; missed packets will
+    /// cause errors on attempt to parse it.
+    fn load<S: std::io::Read + std::io::Seek>(
+        source: &mut S,
+        location: PacketsLocation<'a>,
+    ) -> Result<Self, Error> {
+        let size: u64 = location.lenghts.iter().sum();
+        let mut data = Vec::with_capacity(size.min(1024 * 1024) as usize);
+        source.seek(std::io::SeekFrom::Start(location.start))?;
+        source.take(size).read_to_end(&mut data)?;
+        Ok(Self {
+            data,
+            offset: 0,
+            lenghts: location.lenghts,
+        })
+    }
+
+    /// Returns data of the next packet, or `None` if all packets are taken.
+    fn next(&mut self) -> Option<Cursor<&[u8]>> {
+        let (len, rest) = self.lenghts.split_first()?;
+        self.lenghts = rest;
+        let start = self.offset;
+        let available = self.data.len() - start;
+        self.offset += usize::try_from(*len).unwrap_or(available).min(available);
+        Some(Cursor::new(&self.data[start..self.offset]))
+    }
+}
+
 /// An iterator over stored packets distributed across multiple slots.
 ///
 /// `ReaderIterator` reads packets from a `Read + Seek` source (e.g. file or memory stream)
 /// using a list of `Slot`s and their recorded layout. It internally tracks the position and
-/// reuses an internal buffer (`Cursor<Vec<u8>>`) to efficiently read packet data.
+/// reuses an internal buffer (`PacketsBuffer`) to efficiently read packet data.
 ///
 /// It yields deserialized `PacketDef<B, P, Inner>` values or parsing errors.
 ///
@@ -102,7 +147,7 @@ pub struct ReaderIterator<
 > {
     locator: PacketsLocatorIterator<'a, I>,
     source: &'a mut S,
-    buffer: Cursor<Vec<u8>>,
+    buffer: PacketsBuffer<'a>,
     _block: std::marker::PhantomData<B>,
     _payload: std::marker::PhantomData<P>,
     _payload_inner: std::marker::PhantomData<Inner>,
@@ -122,7 +167,7 @@ impl<
         Self {
             locator: PacketsLocatorIterator::new(slots),
             source,
-            buffer: Cursor::new(Vec::new()),
+            buffer: PacketsBuffer::default(),
             _block: std::marker::PhantomData,
             _payload: std::marker::PhantomData,
             _payload_inner: std::marker::PhantomData,
@@ -131,12 +176,7 @@ impl<
     /// Seeks to the specified packet index across the slots.
     pub fn seek(mut self, packet: usize) -> Result<Self, Error> {
         let location = self.locator.from(packet)?;
-        self.source
-            .seek(std::io::SeekFrom::Start(*location.start()))?;
-        let size = (location.end() - location.start()) as usize;
-        let mut inner = vec![0u8; size];
-        self.source.read_exact(&mut inner).unwrap();
-        self.buffer = Cursor::new(inner);
+        self.buffer = PacketsBuffer::load(self.source, location)?;
         Ok(self)
     }
 }
@@ -157,23 +197,15 @@ impl<
     /// Loads the slot's region into an internal buffer and calls `PacketDef::read`.
     /// Returns `None` if all slots are exhausted.
     fn next(&mut self) -> Option<Self::Item> {
-        // TODO: remove unwraps and handle errors properly
-        if self.buffer.fill_buf().unwrap().is_empty() {
+        loop {
+            if let Some(mut data) = self.buffer.next() {
+                return Some(<PacketDef<B, P, Inner> as ReadFrom>::read(&mut data));
+            }
             let location = self.locator.next()?;
-            if let Err(err) = self
-                .source
-                .seek(std::io::SeekFrom::Start(*location.start()))
-            {
-                return Some(Err(err.into()));
+            match PacketsBuffer::load(self.source, location) {
+                Ok(buffer) => self.buffer = buffer,
+                Err(err) => return Some(Err(err)),
             }
-            let size = (location.end() - location.start()) as usize;
-            let mut inner = vec![0u8; size];
-            self.source.read_exact(&mut inner).unwrap();
-            self.buffer = Cursor::new(inner);
-        }
-        match <PacketDef<B, P, Inner> as ReadFrom>::read(&mut self.buffer) {
-            Err(err) => Some(Err(err)),
-            Ok(pkg) => Some(Ok(pkg)),
         }
     }
 }
@@ -205,7 +237,7 @@ pub struct ReaderFilteredIterator<
     locator: PacketsLocatorIterator<'a, I>,
     source: &'a mut S,
     rules: &'a RulesDef<B, BR, P, Inner>,
-    buffer: Cursor<Vec<u8>>,
+    buffer: PacketsBuffer<'a>,
 }
 
 impl<
@@ -224,7 +256,7 @@ impl<
             locator: PacketsLocatorIterator::new(slots),
             source,
             rules,
-            buffer: Cursor::new(Vec::new()),
+            buffer: PacketsBuffer::default(),
         }
     }
 }
@@ -251,20 +283,15 @@ impl<
     /// Returns `Some(Ok(...))` if accepted, skips if denied, and `Err(...)` on error.
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            if self.buffer.fill_buf().unwrap().is_empty() {
+            let Some(mut data) = self.buffer.next() else {
                 let location = self.locator.next()?;
-                if let Err(err) = self
-                    .source
-                    .seek(std::io::SeekFrom::Start(*location.start()))
-                {
-                    return Some(Err(err.into()));
+                match PacketsBuffer::load(self.source, location) {
+                    Ok(buffer) => self.buffer = buffer,
+                    Err(err) => return Some(Err(err)),
                 }
-                let size = (location.end() - location.start()) as usize;
-                let mut inner = vec![0u8; size];
-                self.source.read_exact(&mut inner).unwrap();
-                self.buffer = Cursor::new(inner);
-            }
-            match PacketDef::filtered(&mut self.buffer, self.rules) {
+                continue;
+            };
+            match PacketDef::filtered(&mut data, self.rules) {
                 Ok(LookInStatus::Accepted(_, packet)) => return Some(Ok(packet)),
                 Ok(LookInStatus::Denied(_)) => {
                     continue;
@@ -345,7 +372,7 @@ impl<
             return None;
         }
         let item = self.storage.nth(self.from);
-        self.from += 1;
+        self.from = self.from.saturating_add(1);
         self.len -= 1;
         match item {
             Ok(None) => None,
@@ -415,7 +442,7 @@ impl<
                 return None;
             }
             let item = self.storage.nth_filtered(self.from);
-            self.from += 1;
+            self.from = self.from.saturating_add(1);
             match item {
                 Ok(None) => return None,
                 Ok(Some(LookInStatus::Accepted(_, packet))) => {
-- 
2.43.0


From d766362f90ed3f087c21494183fa447f5617bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 21/32] fix: storage writes a packet before the slot which
 refers to it

---
 brec/src/storage/writer/mod.rs | 42 +++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/brec/src/storage/writer/mod.rs b/brec/src/storage/writer/mod.rs
index 1613b9f..f6dbc4e 100644
--- a/brec/src/storage/writer/mod.rs
+++ b/brec/src/storage/writer/mod.rs
@@ -87,6 +87,9 @@ impl<
     /// * `Ok(())` — Packet successfully written
     /// * `Err(Error)` — If no space is found or write fails
     pub fn insert(&mut self, mut packet: PacketDef<B, P, Inner>) -> Result<(), Error> {
+        // Convert the packet into bytes
+        let mut buffer: Vec<u8> = Vec::new();
+        packet.write_all(&mut buffer)?;
         let offset = match self.locator.next(&self.slots) {
             Some(offset) => offset,
             None => {
@@ -96,25 +99,42 @@ impl<
                     .ok_or(Error::CannotFindFreeSlot)?
             }
         };
-        // Convert the packet into bytes
-        let mut buffer: Vec<u8> = Vec::new();
-        packet.write_all(&mut buffer)?;
-        // Insert length of packet
-        self.locator.insert(&mut self.slots, buffer.len() as u64)?;
-        // Get updated slot data
         let (slot_index, slot_offset) = self.locator.current();
-        self.inner.flush()?;
-        self.inner.seek(std::io::SeekFrom::Start(slot_offset))?;
         let slot = self
             .slots
             .get(slot_index)
             .ok_or(Error::CannotFindFreeSlot)?;
-        // Write/Rewrite slot
-        slot.write_all(&mut self.inner)?;
+        let used = slot.count();
+        if used == 0 {
+            // Storage doesn't have this slot yet
+            self.inner.seek(std::io::SeekFrom::Start(slot_offset))?;
+            Slot::default().write_all(&mut self.inner)?;
+        }
+        // The packet becomes visible only with an updated slot; before this it should be written
         self.inner.seek(std::io::SeekFrom::Start(offset))?;
+        self.inner.write_all(&buffer)?;
+        if used + 1 == slot.lenghts.len() {
+            // The slot will be full. Behind can be a rest of interrupted writing
+            Slot::default().write_all(&mut self.inner)?;
+        }
         self.inner.flush()?;
+        // Insert length of packet
+        self.locator.insert(&mut self.slots, buffer.len() as u64)?;
+        // Write/Rewrite slot
+        if let Err(err) = self.write_slot(slot_index, slot_offset) {
+            if let Some(slot) = self.slots.get_mut(slot_index) {
+                slot.lenghts[used] = 0;
+                slot.overwrite_crc();
+            }
+            return Err(err);
+        }
+        Ok(())
+    }
+
+    fn write_slot(&mut self, index: usize, offset: u64) -> Result<(), Error> {
+        let slot = self.slots.get(index).ok_or(Error::CannotFindFreeSlot)?;
         self.inner.seek(std::io::SeekFrom::Start(offset))?;
-        self.inner.write_all(&buffer)?;
+        slot.write_all(&mut self.inner)?;
         self.inner.flush()?;
         Ok(())
     }
-- 
2.43.0


From 08e82bcbbf7285d35c22a02ad51648a2fadafe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:28 +0000
Subject: [PATCH 22/32] fix: sensor doesn't wake an owner for data already
 processed

---
 brec/src/storage/observer/sensor/mod.rs | 43 +++++++++++++++----------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/brec/src/storage/observer/sensor/mod.rs b/brec/src/storage/observer/sensor/mod.rs
index 121a9bd..9d53bac 100644
--- a/brec/src/storage/observer/sensor/mod.rs
+++ b/brec/src/storage/observer/sensor/mod.rs
@@ -93,27 +93,36 @@ impl Sensor {
         locked: &AtomicBool,
         processed_len: &AtomicU64,
     ) -> Result<(), SensorError> {
-        let size = fs::metadata(target)?.len();
+        loop {
+            let size = fs::metadata(target)?.len();
 
-        if size <= processed_len.load(Ordering::Acquire) {
-            return Ok(());
-        }
-
-        if locked
-            .compare_exchange(false, true, Ordering::AcqRel, Ordering::Relaxed)
-            .is_err()
-        {
-            return Ok(());
-        }
+            if size <= processed_len.load(Ordering::Acquire) {
+                return Ok(());
+            }
 
-        match tx.try_send(Wake::new(size)) {
-            Ok(_) | Err(crossbeam::channel::TrySendError::Full(_)) => {
-                // Prevent blocking in notify callback.
-                Ok(())
+            if locked
+                .compare_exchange(false, true, Ordering::AcqRel, Ordering::Relaxed)
+                .is_err()
+            {
+                return Ok(());
             }
-            Err(crossbeam::channel::TrySendError::Disconnected(_)) => {
-                Err(SensorError::Disconnected)
+
+            if size <= processed_len.load(Ordering::Acquire) {
+                // Owner has reported this size as processed in the meantime. Another wake could be
+                // rejected while it was locked, so the size should be checked again.
+                locked.store(false, Ordering::Release);
+                continue;
             }
+
+            return match tx.try_send(Wake::new(size)) {
+                Ok(_) | Err(crossbeam::channel::TrySendError::Full(_)) => {
+                    // Prevent blocking in notify callback.
+                    Ok(())
+                }
+                Err(crossbeam::channel::TrySendError::Disconnected(_)) => {
+                    Err(SensorError::Disconnected)
+                }
+            };
         }
     }
 }
-- 
2.43.0


From ba98021fec2d5b11bfe14389218b518ec865f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:33 +0000
Subject: [PATCH 23/32] Guarded access to the storage sensor for runtime
 verification (cfg brec_verif)

---
 brec/src/storage/mod.rs                 | 24 ++++++++++++++++++++++++
 brec/src/storage/observer/mod.rs        |  3 +++
 brec/src/storage/observer/sensor/mod.rs | 12 ++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/brec/src/storage/mod.rs b/brec/src/storage/mod.rs
index 87769a3..6e57c09 100644
--- a/brec/src/storage/mod.rs
+++ b/brec/src/storage/mod.rs
@@ -1,3 +1,6 @@
+// `brec_verif` is given with RUSTFLAGS for runtime verification only
+#![allow(unexpected_cfgs)]
+
 mod locator;
 mod observer;
 mod reader;
@@ -11,3 +14,24 @@ pub(crate) use locator::*;
 pub(crate) use slot::*;
 
 pub use slot::{DEFAULT_SLOT_CAPACITY, STORAGE_SLOT_SIG};
+
+/// Access to internals for runtime verification. Exists only with `--cfg brec_verif`.
+#[cfg(brec_verif)]
+pub mod verif {
+    pub use super::observer::{Sensor, SensorError, Wake};
+
+    type Hook = Box<dyn Fn(&'static str) + Send + Sync>;
+
+    static HOOK: std::sync::OnceLock<Hook> = std::sync::OnceLock::new();
+
+    /// Installs a hook called on each point of interest.
+    pub fn set_hook(hook: Hook) {
+        let _ = HOOK.set(hook);
+    }
+
+    pub(crate) fn point(name: &'static str) {
+        if let Some(hook) = HOOK.get() {
+            hook(name);
+        }
+    }
+}
diff --git a/brec/src/storage/observer/mod.rs b/brec/src/storage/observer/mod.rs
index 1a52685..4344dd0 100644
--- a/brec/src/storage/observer/mod.rs
+++ b/brec/src/storage/observer/mod.rs
@@ -3,6 +3,9 @@ mod sensor;
 use crate::*;
 use sensor::*;
 
+#[cfg(brec_verif)]
+pub use sensor::{Sensor, SensorError, Wake};
+
 pub struct ObserverDef<
     S: std::io::Read + std::io::Seek,
     B: BlockDef,
diff --git a/brec/src/storage/observer/sensor/mod.rs b/brec/src/storage/observer/sensor/mod.rs
index 9d53bac..b8ea854 100644
--- a/brec/src/storage/observer/sensor/mod.rs
+++ b/brec/src/storage/observer/sensor/mod.rs
@@ -82,8 +82,14 @@ impl Sensor {
     pub fn processed(&self, until: u64) -> Result<(), SensorError> {
         fetch_max_u64(&self.processed_len, until);
 
+        #[cfg(brec_verif)]
+        crate::storage::verif::point("sensor:acknowledged");
+
         self.locked.store(false, Ordering::Release);
 
+        #[cfg(brec_verif)]
+        crate::storage::verif::point("sensor:unlocked");
+
         Self::emit(&self.target, &self.tx, &self.locked, &self.processed_len)
     }
 
@@ -96,10 +102,16 @@ impl Sensor {
         loop {
             let size = fs::metadata(target)?.len();
 
+            #[cfg(brec_verif)]
+            crate::storage::verif::point("sensor:sized");
+
             if size <= processed_len.load(Ordering::Acquire) {
                 return Ok(());
             }
 
+            #[cfg(brec_verif)]
+            crate::storage::verif::point("sensor:grown");
+
             if locked
                 .compare_exchange(false, true, Ordering::AcqRel, Ordering::Relaxed)
                 .is_err()
-- 
2.43.0


From 07ae1469fe604dcaf10f7ebeea50f6a4433e1537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:39 +0000
Subject: [PATCH 24/32] fix: a payload which disagrees with the size of its
 packet is refused

---
 brec/src/packet/header/mod.rs | 16 ++++++++++++++++
 brec/src/packet/mod.rs        |  7 ++++---
 brec/src/packet/read.rs       | 24 ++++++++++++++++--------
 brec/src/packet/reader.rs     |  9 ++++++---
 4 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/brec/src/packet/header/mod.rs b/brec/src/packet/header/mod.rs
index df006b3..625672a 100644
--- a/brec/src/packet/header/mod.rs
+++ b/brec/src/packet/header/mod.rs
@@ -106,6 +106,22 @@ impl PacketHeader {
         Ok(payload_body_len + payload_header_len)
     }
 
+    /// Makes sure that a header of the payload agrees with the total size of the packet.
+    ///
+    /// # Arguments
+    /// * `header` - A header of the payload, which has been read after the blocks of the packet.
+    ///
+    /// # Errors
+    /// Returns `Error::UnexpectedSliceLength` if the payload doesn't end together with the packet.
+    pub(crate) fn check_payload(&self, header: &PayloadHeader) -> Result<(), Error> {
+        let size = (header.size() + header.payload_len()) as u64;
+        if self.blocks_len.checked_add(size) == Some(self.size) {
+            Ok(())
+        } else {
+            Err(Error::UnexpectedSliceLength)
+        }
+    }
+
     /// Finds the offset of a packet header in the provided buffer by scanning for the signature.
     ///
     /// # Arguments
diff --git a/brec/src/packet/mod.rs b/brec/src/packet/mod.rs
index 0727d06..9de0ac7 100644
--- a/brec/src/packet/mod.rs
+++ b/brec/src/packet/mod.rs
@@ -154,15 +154,16 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> PacketDef<B, P,
         let pkg = if header.payload {
             let mut payload_buffer = &packet_buffer[blocks_len..];
             match <PayloadHeader as TryReadFromBuffered>::try_read(&mut payload_buffer)? {
-                ReadStatus::Success(header) => {
-                    let mut payload_buffer = &packet_buffer[blocks_len + header.size()..];
+                ReadStatus::Success(payload_header) => {
+                    header.check_payload(&payload_header)?;
+                    let mut payload_buffer = &packet_buffer[blocks_len + payload_header.size()..];
                     if !rules.filter_by_payload(payload_buffer) {
                         // PacketDef marked as ignored
                         return Ok(LookInStatus::Denied(packet_size));
                     }
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
-                        &header,
+                        &payload_header,
                     ) {
                         Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 1ac5972..9959684 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -48,8 +48,9 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> ReadFrom
             }
         }
         if header.payload {
-            let header = <PayloadHeader as ReadFrom>::read(&mut reader)?;
-            let payload = <P as ExtractPayloadFrom<Inner>>::read(&mut reader, &header)?;
+            let payload_header = <PayloadHeader as ReadFrom>::read(&mut reader)?;
+            header.check_payload(&payload_header)?;
+            let payload = <P as ExtractPayloadFrom<Inner>>::read(&mut reader, &payload_header)?;
             pkg.payload = Some(payload);
         }
         Ok(pkg)
@@ -126,8 +127,12 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
         }
         if header.payload {
             match <PayloadHeader as TryReadFrom>::try_read(buf) {
-                Ok(ReadStatus::Success(header)) => {
-                    match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &header) {
+                Ok(ReadStatus::Success(payload_header)) => {
+                    if let Err(err) = header.check_payload(&payload_header) {
+                        buf.seek(std::io::SeekFrom::Start(start_pos))?;
+                        return Err(err);
+                    }
+                    match <P as TryExtractPayloadFrom<Inner>>::try_read(buf, &payload_header) {
                         Ok(ReadStatus::Success(payload)) => {
                             pkg.payload = Some(payload);
                         }
@@ -216,10 +221,13 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFromBuffe
         }
         if header.payload {
             match <PayloadHeader as TryReadFromBuffered>::try_read(&mut body)? {
-                ReadStatus::Success(header) => {
-                    body = &body[header.size()..];
-                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(&mut body, &header)?
-                    {
+                ReadStatus::Success(payload_header) => {
+                    header.check_payload(&payload_header)?;
+                    body = &body[payload_header.size()..];
+                    match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
+                        &mut body,
+                        &payload_header,
+                    )? {
                         ReadStatus::Success(payload) => {
                             pkg.payload = Some(payload);
                         }
diff --git a/brec/src/packet/reader.rs b/brec/src/packet/reader.rs
index 745a831..ba9b2c5 100644
--- a/brec/src/packet/reader.rs
+++ b/brec/src/packet/reader.rs
@@ -418,15 +418,18 @@ impl<
         let pkg = if header.payload {
             let mut payload_buffer = &packet_buffer[blocks_len..];
             match <PayloadHeader as TryReadFromBuffered>::try_read(&mut payload_buffer) {
-                Ok(ReadStatus::Success(header)) => {
-                    let mut payload_buffer = &packet_buffer[blocks_len + header.size()..];
+                Ok(ReadStatus::Success(payload_header)) => {
+                    if let Err(err) = header.check_payload(&payload_header) {
+                        return self.drop_and_consume(consume, Err(err));
+                    }
+                    let mut payload_buffer = &packet_buffer[blocks_len + payload_header.size()..];
                     if !self.rules.filter_by_payload(payload_buffer) {
                         // PacketDef marked as ignored
                         return self.drop_and_consume(consume, Ok(NextPacket::Skipped));
                     }
                     match <P as TryExtractPayloadFromBuffered<Inner>>::try_read(
                         &mut payload_buffer,
-                        &header,
+                        &payload_header,
                     ) {
                         Ok(ReadStatus::Success(payload)) => PacketDef::new(
                             blocks.into_iter().map(|blk| blk.into()).collect::<Vec<B>>(),
-- 
2.43.0


From 9ebd8257139e10bbf521ff2ce326447821961d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:54 +0000
Subject: [PATCH 25/32] fix: generate!(no_default_payload) did not compile with
 custom payloads

---
 brec_macros/src/collector/payloads/mod.rs   |  20 +--
 brec_macros/src/collector/payloads/props.rs |  44 +++---
 brec_macros/src/collector/payloads/read.rs  | 160 +++++++++++---------
 brec_macros/src/collector/payloads/write.rs |  24 ++-
 4 files changed, 142 insertions(+), 106 deletions(-)

diff --git a/brec_macros/src/collector/payloads/mod.rs b/brec_macros/src/collector/payloads/mod.rs
index 8d451e3..bb69513 100644
--- a/brec_macros/src/collector/payloads/mod.rs
+++ b/brec_macros/src/collector/payloads/mod.rs
@@ -11,16 +11,16 @@ mod write;
 pub fn gen(payloads: Vec<&Payload>, cfg: &Config) -> Result<TokenStream, E> {
     let derives = Derives::common(payloads.iter().map(|p| &p.derives).collect())?;
     let payload = enums::gen(&payloads, derives, cfg)?;
-    let encode = props::encode(&payloads)?;
-    let encode_referred = props::encode_referred(&payloads)?;
-    let sig = props::sig(&payloads)?;
-    let crc = props::crc(&payloads)?;
-    let size = props::size(&payloads)?;
-    let extract_from = read::extract_from(&payloads)?;
-    let try_extract_from = read::try_extract_from(&payloads)?;
-    let try_extract_from_buffered = read::try_extract_from_buffered(&payloads)?;
-    let writing_to = write::writing_to(&payloads)?;
-    let writing_vectored_to = write::writing_vectored_to(&payloads)?;
+    let encode = props::encode(&payloads, cfg)?;
+    let encode_referred = props::encode_referred(&payloads, cfg)?;
+    let sig = props::sig(&payloads, cfg)?;
+    let crc = props::crc(&payloads, cfg)?;
+    let size = props::size(&payloads, cfg)?;
+    let extract_from = read::extract_from(&payloads, cfg)?;
+    let try_extract_from = read::try_extract_from(&payloads, cfg)?;
+    let try_extract_from_buffered = read::try_extract_from_buffered(&payloads, cfg)?;
+    let writing_to = write::writing_to(&payloads, cfg)?;
+    let writing_vectored_to = write::writing_vectored_to(&payloads, cfg)?;
     Ok(quote! {
         #payload
         #encode
diff --git a/brec_macros/src/collector/payloads/props.rs b/brec_macros/src/collector/payloads/props.rs
index 9a38043..2352e53 100644
--- a/brec_macros/src/collector/payloads/props.rs
+++ b/brec_macros/src/collector/payloads/props.rs
@@ -3,64 +3,70 @@ use crate::*;
 use proc_macro2::TokenStream;
 use quote::quote;
 
-pub fn encode(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn encode(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => brec::PayloadEncode::encode(pl)});
     }
+    if !cfg.is_no_default_payloads() {
+        variants.push(quote! {Payload::Bytes(pl) => brec::PayloadEncode::encode(pl)});
+        variants.push(quote! {Payload::String(pl) => brec::PayloadEncode::encode(pl)});
+    }
     Ok(quote! {
         impl brec::PayloadEncode for Payload {
             fn encode(&self) -> std::io::Result<Vec<u8>> {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => brec::PayloadEncode::encode(pl),
-                    Payload::String(pl) => brec::PayloadEncode::encode(pl),
                 }
             }
         }
     })
 }
 
-pub fn encode_referred(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn encode_referred(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => brec::PayloadEncodeReferred::encode(pl)});
     }
+    if !cfg.is_no_default_payloads() {
+        variants.push(quote! {Payload::Bytes(pl) => brec::PayloadEncodeReferred::encode(pl)});
+        variants.push(quote! {Payload::String(pl) => brec::PayloadEncodeReferred::encode(pl)});
+    }
     Ok(quote! {
         impl brec::PayloadEncodeReferred for Payload {
             fn encode(&self) -> std::io::Result<Option<&[u8]>> {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => brec::PayloadEncodeReferred::encode(pl),
-                    Payload::String(pl) => brec::PayloadEncodeReferred::encode(pl),
                 }
             }
         }
     })
 }
 
-pub fn sig(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn sig(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => pl.sig()});
     }
+    if !cfg.is_no_default_payloads() {
+        variants.push(quote! {Payload::Bytes(pl) => pl.sig()});
+        variants.push(quote! {Payload::String(pl) => pl.sig()});
+    }
     Ok(quote! {
         impl brec::PayloadSignature for Payload {
             fn sig(&self) -> brec::ByteBlock {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => pl.sig(),
-                    Payload::String(pl) => pl.sig(),
                 }
             }
         }
     })
 }
 
-pub fn crc(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn crc(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     let mut lens = Vec::new();
     for payload in payloads.iter() {
@@ -68,39 +74,43 @@ pub fn crc(payloads: &[&Payload]) -> Result<TokenStream, E> {
         variants.push(quote! {Payload::#fullname(pl) => pl.crc()});
         lens.push(quote! {Payload::#fullname(pl) => pl.crc_len()});
     }
+    if !cfg.is_no_default_payloads() {
+        variants.push(quote! {Payload::Bytes(pl) => pl.crc()});
+        variants.push(quote! {Payload::String(pl) => pl.crc()});
+        lens.push(quote! {Payload::Bytes(pl) => pl.crc_len()});
+        lens.push(quote! {Payload::String(pl) => pl.crc_len()});
+    }
     Ok(quote! {
         impl brec::PayloadCrc for Payload {
             fn crc(&self) -> std::io::Result<brec::ByteBlock> {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => pl.crc(),
-                    Payload::String(pl) => pl.crc(),
                 }
             }
             fn crc_len(&self) -> usize {
                 match self {
                     #(#lens,)*
-                    Payload::Bytes(pl) => pl.crc_len(),
-                    Payload::String(pl) => pl.crc_len(),
                 }
             }
         }
     })
 }
 
-pub fn size(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn size(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         variants.push(quote! {Payload::#fullname(pl) => pl.size()});
     }
+    if !cfg.is_no_default_payloads() {
+        variants.push(quote! {Payload::Bytes(pl) => pl.size()});
+        variants.push(quote! {Payload::String(pl) => pl.size()});
+    }
     Ok(quote! {
         impl brec::PayloadSize for Payload {
             fn size(&self) -> std::io::Result<u64> {
                 match self {
                     #(#variants,)*
-                    Payload::Bytes(pl) => pl.size(),
-                    Payload::String(pl) => pl.size(),
                 }
             }
         }
diff --git a/brec_macros/src/collector/payloads/read.rs b/brec_macros/src/collector/payloads/read.rs
index 2d842d0..685f375 100644
--- a/brec_macros/src/collector/payloads/read.rs
+++ b/brec_macros/src/collector/payloads/read.rs
@@ -3,7 +3,7 @@ use crate::*;
 use proc_macro2::TokenStream;
 use quote::quote;
 
-pub fn extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn extract_from(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
@@ -19,6 +19,28 @@ pub fn extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
             }
         });
     }
+    if !cfg.is_no_default_payloads() {
+        variants.push(quote! {
+            match <Vec<u8> as brec::ReadPayloadFrom<Vec<u8>>>::read(buf, header) {
+                Ok(pl) => return Ok(Payload::Bytes(pl)),
+                Err(err) => {
+                    if !matches!(err, brec::Error::SignatureDismatch) {
+                        return Err(err);
+                    }
+                }
+            }
+        });
+        variants.push(quote! {
+            match <String as brec::ReadPayloadFrom<String>>::read(buf, header) {
+                Ok(pl) => return Ok(Payload::String(pl)),
+                Err(err) => {
+                    if !matches!(err, brec::Error::SignatureDismatch) {
+                        return Err(err);
+                    }
+                }
+            }
+        });
+    }
     Ok(quote! {
         impl brec::ExtractPayloadFrom<Payload> for Payload {
             fn read<B: std::io::Read>(
@@ -29,29 +51,13 @@ pub fn extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
                 Self: Sized,
             {
                 #(#variants)*
-                match <Vec<u8> as brec::ReadPayloadFrom<Vec<u8>>>::read(buf, header) {
-                    Ok(pl) => return Ok(Payload::Bytes(pl)),
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
-                match <String as brec::ReadPayloadFrom<String>>::read(buf, header) {
-                    Ok(pl) => return Ok(Payload::String(pl)),
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
                 Err(brec::Error::SignatureDismatch)
             }
         }
     })
 }
 
-pub fn try_extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn try_extract_from(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
@@ -72,6 +78,38 @@ pub fn try_extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
             }
         });
     }
+    if !cfg.is_no_default_payloads() {
+        variants.push(quote! {
+            match <Vec<u8> as brec::TryReadPayloadFrom<Vec<u8>>>::try_read(buf, header) {
+                Ok(brec::ReadStatus::Success(pl)) => {
+                    return Ok(brec::ReadStatus::Success(Payload::Bytes(pl)))
+                }
+                Ok(brec::ReadStatus::NotEnoughData(needed)) => {
+                    return Ok(brec::ReadStatus::NotEnoughData(needed))
+                }
+                Err(err) => {
+                    if !matches!(err, brec::Error::SignatureDismatch) {
+                        return Err(err);
+                    }
+                }
+            }
+        });
+        variants.push(quote! {
+            match <String as brec::TryReadPayloadFrom<String>>::try_read(buf, header) {
+                Ok(brec::ReadStatus::Success(pl)) => {
+                    return Ok(brec::ReadStatus::Success(Payload::String(pl)))
+                }
+                Ok(brec::ReadStatus::NotEnoughData(needed)) => {
+                    return Ok(brec::ReadStatus::NotEnoughData(needed))
+                }
+                Err(err) => {
+                    if !matches!(err, brec::Error::SignatureDismatch) {
+                        return Err(err);
+                    }
+                }
+            }
+        });
+    }
     Ok(quote! {
         impl brec::TryExtractPayloadFrom<Payload> for Payload {
             fn try_read<B: std::io::Read + std::io::Seek>(
@@ -79,39 +117,13 @@ pub fn try_extract_from(payloads: &[&Payload]) -> Result<TokenStream, E> {
                 header: &brec::PayloadHeader,
             ) -> Result<brec::ReadStatus<Payload>, brec::Error> {
                 #(#variants)*
-                match <Vec<u8> as brec::TryReadPayloadFrom<Vec<u8>>>::try_read(buf, header) {
-                    Ok(brec::ReadStatus::Success(pl)) => {
-                        return Ok(brec::ReadStatus::Success(Payload::Bytes(pl)))
-                    }
-                    Ok(brec::ReadStatus::NotEnoughData(needed)) => {
-                        return Ok(brec::ReadStatus::NotEnoughData(needed))
-                    }
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
-                match <String as brec::TryReadPayloadFrom<String>>::try_read(buf, header) {
-                    Ok(brec::ReadStatus::Success(pl)) => {
-                        return Ok(brec::ReadStatus::Success(Payload::String(pl)))
-                    }
-                    Ok(brec::ReadStatus::NotEnoughData(needed)) => {
-                        return Ok(brec::ReadStatus::NotEnoughData(needed))
-                    }
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
                 Err(brec::Error::SignatureDismatch)
             }
         }
     })
 }
 
-pub fn try_extract_from_buffered(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn try_extract_from_buffered(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
@@ -132,6 +144,38 @@ pub fn try_extract_from_buffered(payloads: &[&Payload]) -> Result<TokenStream, E
             }
         });
     }
+    if !cfg.is_no_default_payloads() {
+        variants.push(quote! {
+            match <Vec<u8> as brec::TryReadPayloadFromBuffered<Vec<u8>>>::try_read(buf, header) {
+                Ok(brec::ReadStatus::Success(pl)) => {
+                    return Ok(brec::ReadStatus::Success(Payload::Bytes(pl)))
+                }
+                Ok(brec::ReadStatus::NotEnoughData(needed)) => {
+                    return Ok(brec::ReadStatus::NotEnoughData(needed))
+                }
+                Err(err) => {
+                    if !matches!(err, brec::Error::SignatureDismatch) {
+                        return Err(err);
+                    }
+                }
+            }
+        });
+        variants.push(quote! {
+            match <String as brec::TryReadPayloadFromBuffered<String>>::try_read(buf, header) {
+                Ok(brec::ReadStatus::Success(pl)) => {
+                    return Ok(brec::ReadStatus::Success(Payload::String(pl)))
+                }
+                Ok(brec::ReadStatus::NotEnoughData(needed)) => {
+                    return Ok(brec::ReadStatus::NotEnoughData(needed))
+                }
+                Err(err) => {
+                    if !matches!(err, brec::Error::SignatureDismatch) {
+                        return Err(err);
+                    }
+                }
+            }
+        });
+    }
     Ok(quote! {
         impl brec::TryExtractPayloadFromBuffered<Payload> for Payload {
             fn try_read<B: std::io::BufRead>(
@@ -139,32 +183,6 @@ pub fn try_extract_from_buffered(payloads: &[&Payload]) -> Result<TokenStream, E
                 header: &brec::PayloadHeader,
             ) -> Result<brec::ReadStatus<Payload>, brec::Error> {
                 #(#variants)*
-                match <Vec<u8> as brec::TryReadPayloadFromBuffered<Vec<u8>>>::try_read(buf, header) {
-                    Ok(brec::ReadStatus::Success(pl)) => {
-                        return Ok(brec::ReadStatus::Success(Payload::Bytes(pl)))
-                    }
-                    Ok(brec::ReadStatus::NotEnoughData(needed)) => {
-                        return Ok(brec::ReadStatus::NotEnoughData(needed))
-                    }
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
-                match <String as brec::TryReadPayloadFromBuffered<String>>::try_read(buf, header) {
-                    Ok(brec::ReadStatus::Success(pl)) => {
-                        return Ok(brec::ReadStatus::Success(Payload::String(pl)))
-                    }
-                    Ok(brec::ReadStatus::NotEnoughData(needed)) => {
-                        return Ok(brec::ReadStatus::NotEnoughData(needed))
-                    }
-                    Err(err) => {
-                        if !matches!(err, brec::Error::SignatureDismatch) {
-                            return Err(err);
-                        }
-                    }
-                }
                 Err(brec::Error::SignatureDismatch)
             }
         }
diff --git a/brec_macros/src/collector/payloads/write.rs b/brec_macros/src/collector/payloads/write.rs
index 45b6d5a..de69702 100644
--- a/brec_macros/src/collector/payloads/write.rs
+++ b/brec_macros/src/collector/payloads/write.rs
@@ -3,7 +3,7 @@ use crate::*;
 use proc_macro2::TokenStream;
 use quote::quote;
 
-pub fn writing_to(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn writing_to(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut write = Vec::new();
     let mut write_all = Vec::new();
     for payload in payloads.iter() {
@@ -15,41 +15,49 @@ pub fn writing_to(payloads: &[&Payload]) -> Result<TokenStream, E> {
             quote! {Payload::#fullname(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf)},
         );
     }
+    if !cfg.is_no_default_payloads() {
+        write.push(quote! {Payload::Bytes(pl) => brec::WritePayloadWithHeaderTo::write(pl, buf)});
+        write.push(quote! {Payload::String(pl) => brec::WritePayloadWithHeaderTo::write(pl, buf)});
+        write_all.push(
+            quote! {Payload::Bytes(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf)},
+        );
+        write_all.push(
+            quote! {Payload::String(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf)},
+        );
+    }
     Ok(quote! {
         impl brec::WriteMutTo for Payload {
             fn write<T: std::io::Write>(&mut self, buf: &mut T) -> std::io::Result<usize> {
                 match self {
                     #(#write,)*
-                    Payload::Bytes(pl) => brec::WritePayloadWithHeaderTo::write(pl, buf),
-                    Payload::String(pl) => brec::WritePayloadWithHeaderTo::write(pl, buf),
                 }
             }
 
             fn write_all<T: std::io::Write>(&mut self, buf: &mut T) -> std::io::Result<()> {
                 match self {
                     #(#write_all,)*
-                    Payload::Bytes(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf),
-                    Payload::String(pl) => brec::WritePayloadWithHeaderTo::write_all(pl, buf),
                 }
             }
         }
     })
 }
 
-pub fn writing_vectored_to(payloads: &[&Payload]) -> Result<TokenStream, E> {
+pub fn writing_vectored_to(payloads: &[&Payload], cfg: &Config) -> Result<TokenStream, E> {
     let mut slices = Vec::new();
     for payload in payloads.iter() {
         let fullname = payload.fullname()?;
         slices.push(quote! {Payload::#fullname(pl) => pl.slices()});
     }
+    if !cfg.is_no_default_payloads() {
+        slices.push(quote! {Payload::Bytes(pl) => pl.slices()});
+        slices.push(quote! {Payload::String(pl) => pl.slices()});
+    }
     Ok(quote! {
         impl brec::WriteVectoredMutTo for Payload {
             fn slices(&mut self) -> std::io::Result<brec::IoSlices<'_>> {
                 use brec::WriteVectoredPayloadWithHeaderTo;
                 match self {
                     #(#slices,)*
-                    Payload::Bytes(pl) => pl.slices(),
-                    Payload::String(pl) => pl.slices(),
                 }
             }
         }
-- 
2.43.0


From 5497ee42d02756bc344771a32735adb2420cf083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:17 +0000
Subject: [PATCH 26/32] fix: blocks declared with a module path did not compile
 and could share a signature

---
 brec_macros/src/codegen/base/block.rs     |  2 +-
 brec_macros/src/collector/blocks/enums.rs |  4 ++--
 brec_macros/src/collector/blocks/read.rs  |  4 ++--
 brec_macros/src/entities/block/mod.rs     | 10 ++++++----
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/brec_macros/src/codegen/base/block.rs b/brec_macros/src/codegen/base/block.rs
index be6bb3b..61e7f8d 100644
--- a/brec_macros/src/codegen/base/block.rs
+++ b/brec_macros/src/codegen/base/block.rs
@@ -39,7 +39,7 @@ impl Base for Block {
             })
             .collect::<Vec<TokenStream>>();
         let const_sig = self.const_sig_name();
-        let sig = self.sig();
+        let sig = self.sig()?;
         let sig_len = self.sig_len();
         let vis = self.vis_token()?;
         Ok(quote! {
diff --git a/brec_macros/src/collector/blocks/enums.rs b/brec_macros/src/collector/blocks/enums.rs
index b50afb6..e83f192 100644
--- a/brec_macros/src/collector/blocks/enums.rs
+++ b/brec_macros/src/collector/blocks/enums.rs
@@ -30,8 +30,8 @@ pub fn gen_referred(blocks: &[&Block]) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for blk in blocks.iter() {
         let fullname = blk.fullname()?;
-        let referred_name = blk.referred_name();
-        variants.push(quote! {#fullname(#referred_name<'a>)});
+        let referred_path = blk.referred_fullpath()?;
+        variants.push(quote! {#fullname(#referred_path<'a>)});
     }
     Ok(quote! {
         pub enum BlockReferred<'a> {
diff --git a/brec_macros/src/collector/blocks/read.rs b/brec_macros/src/collector/blocks/read.rs
index 782b5ab..9043c66 100644
--- a/brec_macros/src/collector/blocks/read.rs
+++ b/brec_macros/src/collector/blocks/read.rs
@@ -149,10 +149,10 @@ pub fn try_read_from_buffered(blocks: &[&Block]) -> Result<TokenStream, E> {
 pub fn read_from_slice(blocks: &[&Block]) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
     for blk in blocks.iter() {
-        let referred_name = blk.referred_name();
+        let referred_path = blk.referred_fullpath()?;
         let fullname = blk.fullname()?;
         variants.push(quote! {
-            match #referred_name::read_from_slice(buf, skip_sig) {
+            match <#referred_path as brec::ReadBlockFromSlice>::read_from_slice(buf, skip_sig) {
                 Ok(blk) => return Ok(BlockReferred::#fullname(blk)),
                 Err(err) => {
                     if !matches!(err, brec::Error::SignatureDismatch) {
diff --git a/brec_macros/src/entities/block/mod.rs b/brec_macros/src/entities/block/mod.rs
index 35935ac..c44ac51 100644
--- a/brec_macros/src/entities/block/mod.rs
+++ b/brec_macros/src/entities/block/mod.rs
@@ -36,12 +36,11 @@ impl Block {
             vis,
         }
     }
-    pub fn sig(&self) -> TokenStream {
-        // TODO: might be a conflict if do not consider a path
+    pub fn sig(&self) -> Result<TokenStream, E> {
         let mut hasher = Hasher::new();
         let snap = format!(
             "{};{}",
-            self.name,
+            self.fullname()?,
             self.fields
                 .iter()
                 .map(|f| format!("{}:{}", f.name, f.ty))
@@ -50,7 +49,7 @@ impl Block {
         );
         hasher.update(snap.as_bytes());
         let sig = hasher.finalize().to_le_bytes();
-        quote! { [#(#sig),*] }
+        Ok(quote! { [#(#sig),*] })
     }
     pub fn sig_len(&self) -> TokenStream {
         let len_lit = LitInt::new(&BLOCK_SIG_LEN.to_string(), proc_macro2::Span::call_site());
@@ -79,6 +78,9 @@ impl Block {
     pub fn fullpath(&self) -> Result<TokenStream, E> {
         self.attrs.fullpath(self.name())
     }
+    pub fn referred_fullpath(&self) -> Result<TokenStream, E> {
+        self.attrs.fullpath(self.referred_name())
+    }
     pub fn vis_token(&self) -> Result<TokenStream, E> {
         self.vis.as_token()
     }
-- 
2.43.0


From b4ec13acb49ba8db7601b0cfee6c3dfdc3ae94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:42 +0000
Subject: [PATCH 27/32] fix: a module path of one segment was ignored when
 given without 'path ='

---
 brec_macros/src/parsing/block/attr/mod.rs   | 2 ++
 brec_macros/src/parsing/payload/attr/mod.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/brec_macros/src/parsing/block/attr/mod.rs b/brec_macros/src/parsing/block/attr/mod.rs
index edded2d..7666829 100644
--- a/brec_macros/src/parsing/block/attr/mod.rs
+++ b/brec_macros/src/parsing/block/attr/mod.rs
@@ -35,6 +35,8 @@ impl Parse for BlockAttrs {
                         let as_str = ident.to_string();
                         if as_str == BlockAttrId::NoCrc.to_string() {
                             attrs.push(BlockAttr::NoCrc)
+                        } else {
+                            attrs.push(BlockAttr::Path(ModulePath::from(&expr)));
                         }
                     } else {
                         attrs.push(BlockAttr::Path(ModulePath::from(&expr)));
diff --git a/brec_macros/src/parsing/payload/attr/mod.rs b/brec_macros/src/parsing/payload/attr/mod.rs
index d497469..6022a10 100644
--- a/brec_macros/src/parsing/payload/attr/mod.rs
+++ b/brec_macros/src/parsing/payload/attr/mod.rs
@@ -43,6 +43,8 @@ impl Parse for PayloadAttrs {
                             attrs.push(PayloadAttr::NoAutoCrc)
                         } else if as_str == PayloadAttrId::NoCrc.to_string() {
                             attrs.push(PayloadAttr::NoCrc)
+                        } else {
+                            attrs.push(PayloadAttr::Path(ModulePath::from(&expr)));
                         }
                     } else {
                         attrs.push(PayloadAttr::Path(ModulePath::from(&expr)));
-- 
2.43.0


From 087d38a9325b3f84435a74fd2896f4a757759d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:06 +0000
Subject: [PATCH 28/32] fix: derives common to all blocks or payloads which an
 enum cannot have broke the generated code

---
 brec_macros/src/collector/payloads/enums.rs | 13 +++++++++++--
 brec_macros/src/entities/derives/mod.rs     |  5 +++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/brec_macros/src/collector/payloads/enums.rs b/brec_macros/src/collector/payloads/enums.rs
index d367690..29b3d55 100644
--- a/brec_macros/src/collector/payloads/enums.rs
+++ b/brec_macros/src/collector/payloads/enums.rs
@@ -5,7 +5,7 @@ use quote::quote;
 
 pub fn gen(
     payloads: &[&Payload],
-    derives: Vec<TokenStream>,
+    mut derives: Vec<TokenStream>,
     cfg: &Config,
 ) -> Result<TokenStream, E> {
     let mut variants = Vec::new();
@@ -14,7 +14,16 @@ pub fn gen(
         let fullpath = pl.fullpath()?;
         variants.push(quote! {#fullname(#fullpath)});
     }
-    let derives = [derives, cfg.get_payload_derive()?].concat();
+    if !cfg.is_no_default_payloads() {
+        // Default payloads (`Vec<u8>` and `String`) are not `Copy`
+        derives.retain(|derive| !Derives::is(&derive.to_string(), "Copy"));
+    }
+    for derive in cfg.get_payload_derive()? {
+        // Might be collected from payloads already
+        if !derives.iter().any(|d| d.to_string() == derive.to_string()) {
+            derives.push(derive);
+        }
+    }
     let derives = if derives.is_empty() {
         quote! {}
     } else {
diff --git a/brec_macros/src/entities/derives/mod.rs b/brec_macros/src/entities/derives/mod.rs
index af893a3..79017ea 100644
--- a/brec_macros/src/entities/derives/mod.rs
+++ b/brec_macros/src/entities/derives/mod.rs
@@ -17,6 +17,8 @@ impl Derives {
         derives.iter().for_each(|v| {
             common.retain(|der| v.derives.contains(der));
         });
+        // An enum of blocks or payloads has no default variant
+        common.retain(|der| !Self::is(der, "Default"));
         common
             .into_iter()
             .map(|derive| {
@@ -27,6 +29,9 @@ impl Derives {
             })
             .collect()
     }
+    pub fn is(derive: &str, name: &str) -> bool {
+        derive.rsplit("::").next().map(str::trim) == Some(name)
+    }
 }
 
 impl From<&DeriveInput> for Derives {
-- 
2.43.0


From d3120c09e7a51c4e9c67914a15b965fcf34db488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:16 +0000
Subject: [PATCH 29/32] fix: constants with block signatures collided with
 constants of the user and of similarly named blocks

---
 brec_macros/src/codegen/base/block.rs | 1 +
 brec_macros/src/entities/block/mod.rs | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/brec_macros/src/codegen/base/block.rs b/brec_macros/src/codegen/base/block.rs
index 61e7f8d..6229008 100644
--- a/brec_macros/src/codegen/base/block.rs
+++ b/brec_macros/src/codegen/base/block.rs
@@ -60,6 +60,7 @@ impl Base for Block {
                 }
             }
 
+            #[allow(non_upper_case_globals)]
             const #const_sig: [u8; #sig_len] = #sig;
 
             impl brec::SignatureU32 for #referred_name <'_> {
diff --git a/brec_macros/src/entities/block/mod.rs b/brec_macros/src/entities/block/mod.rs
index c44ac51..98d12eb 100644
--- a/brec_macros/src/entities/block/mod.rs
+++ b/brec_macros/src/entities/block/mod.rs
@@ -64,7 +64,8 @@ impl Block {
             .sum::<usize>()
     }
     pub fn const_sig_name(&self) -> Ident {
-        format_ident!("{}", self.name.to_ascii_uppercase())
+        // Should not be confused with constants of user or of a block with a similar name
+        format_ident!("__BREC_{}_SIGNATURE", self.name)
     }
     pub fn name(&self) -> Ident {
         format_ident!("{}", self.name)
-- 
2.43.0


From 980ef382df37871449381e96f6d692210f870ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:09 +0000
Subject: [PATCH 30/32] fix: view of a block takes any byte other than 0 for
 true, as owned reading does

---
 brec_macros/src/tokenized/block/from_bytes/ty/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs b/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs
index 80823ad..70ad119 100644
--- a/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs
+++ b/brec_macros/src/tokenized/block/from_bytes/ty/mod.rs
@@ -26,7 +26,7 @@ impl FromBytes for Ty {
             }
             Ty::Bool => {
                 quote! {
-                   u8::from_le_bytes(#src[#from..#to].try_into()?) == 1
+                   u8::from_le_bytes(#src[#from..#to].try_into()?) != 0
                 }
             }
             Ty::Blob(len) => quote! {
-- 
2.43.0


From 1d6d3b3c455f86ff83182c597e8ff395846c4dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:10 +0000
Subject: [PATCH 31/32] fix: try_read of a packet stays within the packet and
 consumes all of it

---
 brec/src/packet/read.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/brec/src/packet/read.rs b/brec/src/packet/read.rs
index 9959684..56e7c54 100644
--- a/brec/src/packet/read.rs
+++ b/brec/src/packet/read.rs
@@ -95,6 +95,13 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
             buf.seek(std::io::SeekFrom::Start(start_pos))?;
             return Ok(ReadStatus::NotEnoughData(packet_size - available));
         }
+        if header.blocks_len > header.size {
+            // Blocks cannot be out of packet
+            buf.seek(std::io::SeekFrom::Start(start_pos))?;
+            return Err(Error::NotEnoughData(
+                (header.blocks_len - header.size) as usize,
+            ));
+        }
         let mut pkg = PacketDef::default();
         let mut read = 0;
         if header.blocks_len > 0 {
@@ -156,6 +163,7 @@ impl<B: BlockDef, P: PayloadDef<Inner>, Inner: PayloadInnerDef> TryReadFrom
                 }
             }
         }
+        buf.seek(std::io::SeekFrom::Start(start_pos + packet_size))?;
         Ok(ReadStatus::Success(pkg))
     }
 }
-- 
2.43.0


From c91a8bb432e87d16906bc19aebc0da6af155ee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:10 +0000
Subject: [PATCH 32/32] fix: try_read of a payload doesn't overflow behind the
 end of a source

---
 brec/src/traits/read/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brec/src/traits/read/mod.rs b/brec/src/traits/read/mod.rs
index 477af2e..7a46002 100644
--- a/brec/src/traits/read/mod.rs
+++ b/brec/src/traits/read/mod.rs
@@ -124,7 +124,9 @@ pub trait TryReadPayloadFrom<
         header: &PayloadHeader,
     ) -> Result<ReadStatus<T>, Error> {
         let start_pos = buf.stream_position()?;
-        let len = buf.seek(std::io::SeekFrom::End(0))? - start_pos;
+        let len = buf
+            .seek(std::io::SeekFrom::End(0))?
+            .saturating_sub(start_pos);
         buf.seek(std::io::SeekFrom::Start(start_pos))?;
         if len < header.payload_len() as u64 {
             return Ok(ReadStatus::NotEnoughData(header.payload_len() as u64 - len));
-- 
2.43.0

