From 96815a7e963f49a764bc64660eee70d8ae7e8ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 01/42] fix: read version-1 mvhd/tkhd boxes with 64-bit times
 and durations

---
 src/bbox/mvhd.rs | 38 +++++++++++++++++++++++++++++---------
 src/bbox/tkhd.rs | 48 +++++++++++++++++++-----------------------------
 2 files changed, 48 insertions(+), 38 deletions(-)

diff --git a/src/bbox/mvhd.rs b/src/bbox/mvhd.rs
index d00d7df..2ac3567 100644
--- a/src/bbox/mvhd.rs
+++ b/src/bbox/mvhd.rs
@@ -1,5 +1,9 @@
 use chrono::{DateTime, Duration, FixedOffset, Local, NaiveDate, NaiveDateTime, TimeZone, Utc};
-use nom::{bytes::complete::take, number::complete::be_u32, Parser};
+use nom::{
+    bytes::complete::take,
+    number::complete::{be_u32, be_u64},
+    Parser,
+};
 
 use super::{FullBoxHeader, ParseBody};
 
@@ -15,10 +19,10 @@ pub struct MvhdBox {
     header: FullBoxHeader,
 
     /// seconds since midnight, January 1, 1904
-    creation_time: u32,
+    creation_time: u64,
 
     /// seconds since midnight, January 1, 1904
-    modification_time: u32,
+    modification_time: u64,
 
     /// The number of time units that pass per second in its time coordinate
     /// system.
@@ -29,7 +33,7 @@ pub struct MvhdBox {
     /// # convert to seconds
     ///
     /// seconds = duration / time_scale
-    duration: u32,
+    duration: u64,
     // omit 76 bytes...
     next_track_id: u32,
 }
@@ -40,11 +44,15 @@ impl MvhdBox {
     }
 
     fn creation_time_naive(&self) -> NaiveDateTime {
-        NaiveDate::from_ymd_opt(1904, 1, 1)
+        let epoch = NaiveDate::from_ymd_opt(1904, 1, 1)
             .unwrap()
             .and_hms_opt(0, 0, 0)
-            .unwrap()
-            + Duration::seconds(self.creation_time as i64)
+            .unwrap();
+        i64::try_from(self.creation_time)
+            .ok()
+            .and_then(Duration::try_seconds)
+            .and_then(|d| epoch.checked_add_signed(d))
+            .unwrap_or(epoch)
     }
 
     pub fn creation_time(&self) -> DateTime<FixedOffset> {
@@ -63,8 +71,20 @@ impl MvhdBox {
 
 impl ParseBody<MvhdBox> for MvhdBox {
     fn parse_body(body: &[u8], header: FullBoxHeader) -> nom::IResult<&[u8], MvhdBox> {
-        let (remain, (creation_time, modification_time, time_scale, duration, _, next_track_id)) =
-            (be_u32, be_u32, be_u32, be_u32, take(76usize), be_u32).parse(body)?;
+        // Version 1 stores the times and the duration as 64-bit integers.
+        let (remain, (creation_time, modification_time, time_scale, duration)) =
+            if header.version == 1 {
+                (be_u64, be_u64, be_u32, be_u64).parse(body)?
+            } else {
+                (
+                    be_u32.map(u64::from),
+                    be_u32.map(u64::from),
+                    be_u32,
+                    be_u32.map(u64::from),
+                )
+                    .parse(body)?
+            };
+        let (remain, (_, next_track_id)) = (take(76usize), be_u32).parse(remain)?;
 
         Ok((
             remain,
diff --git a/src/bbox/tkhd.rs b/src/bbox/tkhd.rs
index 9afe179..7a014a7 100644
--- a/src/bbox/tkhd.rs
+++ b/src/bbox/tkhd.rs
@@ -20,14 +20,14 @@ pub struct TkhdBox {
     header: FullBoxHeader,
 
     /// seconds since midnight, January 1, 1904
-    creation_time: u32,
+    creation_time: u64,
 
     /// seconds since midnight, January 1, 1904
-    modification_time: u32,
+    modification_time: u64,
 
     track_id: u32,
     // reserved: u32,
-    duration: u32,
+    duration: u64,
     // reserved2: u64,
     layer: u16,
     alt_group: u16,
@@ -41,31 +41,21 @@ pub struct TkhdBox {
 
 impl ParseBody<TkhdBox> for TkhdBox {
     fn parse_body(body: &[u8], header: FullBoxHeader) -> nom::IResult<&[u8], TkhdBox> {
-        let (
-            remain,
-            (
-                creation_time,
-                modification_time,
-                track_id,
-                _,
-                duration,
-                _,
-                layer,
-                alt_group,
-                volume,
-                _,
-                _,
-                width,
-                _,
-                height,
-                _,
-            ),
-        ) = (
-            be_u32,
-            be_u32,
-            be_u32,
-            be_u32,
-            be_u32,
+        // Version 1 stores the times and the duration as 64-bit integers.
+        let (remain, (creation_time, modification_time, track_id, _, duration)) =
+            if header.version == 1 {
+                (be_u64, be_u64, be_u32, be_u32, be_u64).parse(body)?
+            } else {
+                (
+                    be_u32.map(u64::from),
+                    be_u32.map(u64::from),
+                    be_u32,
+                    be_u32,
+                    be_u32.map(u64::from),
+                )
+                    .parse(body)?
+            };
+        let (remain, (_, layer, alt_group, volume, _, _, width, _, height, _)) = (
             be_u64,
             be_u16,
             be_u16,
@@ -77,7 +67,7 @@ impl ParseBody<TkhdBox> for TkhdBox {
             be_u16,
             be_u16,
         )
-            .parse(body)?;
+            .parse(remain)?;
 
         Ok((
             remain,
-- 
2.43.0


From 86958ea8b0aa11c7854ed4ad736f25899cdf7776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 02/42] fix: match ilst items to their keys by index

---
 src/bbox/ilst.rs |  4 ++--
 src/mov.rs       | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/bbox/ilst.rs b/src/bbox/ilst.rs
index 7d3bcea..7598654 100644
--- a/src/bbox/ilst.rs
+++ b/src/bbox/ilst.rs
@@ -37,8 +37,8 @@ impl IlstBox {
 #[derive(Debug, Clone, PartialEq)]
 pub struct IlstItem {
     size: u32,
-    index: u32,    // 1-based index (start from 1)
-    data_len: u32, // including self size
+    pub index: u32, // 1-based index (start from 1)
+    data_len: u32,  // including self size
 
     /// Type indicator, see [type
     /// indicator](https://developer.apple.com/documentation/quicktime-file-format/type_indicator)
diff --git a/src/mov.rs b/src/mov.rs
index d7886df..76646e0 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -237,11 +237,15 @@ fn parse_meta(input: &[u8]) -> Option<Vec<(String, EntryValue)>> {
     let (_, keys) = KeysBox::parse_box(keys.data).ok()?;
     let (_, ilst) = IlstBox::parse_box(ilst.data).ok()?;
 
-    let entries = keys
-        .entries
+    // Each `ilst` item names its key by the (1-based) index of that key in the
+    // `keys` box, the items can come in any order.
+    let entries = ilst
+        .items
         .into_iter()
-        .map(|k| k.key)
-        .zip(ilst.items.into_iter().map(|v| v.value))
+        .filter_map(|item| {
+            let idx = (item.index as usize).checked_sub(1)?;
+            keys.entries.get(idx).map(|k| (k.key.clone(), item.value))
+        })
         .collect::<Vec<_>>();
 
     Some(entries)
-- 
2.43.0


From f63a3b443598c9383a1ed4652c441c338ae60332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 03/42] fix: keep the udta items that precede a terminating
 zero

---
 src/bbox.rs | 19 -------------------
 src/mov.rs  | 21 +++++++++++----------
 2 files changed, 11 insertions(+), 29 deletions(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 49ac77a..49abc92 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -179,25 +179,6 @@ impl<'a> BoxHolder<'a> {
 
 type BoxResult<'a> = IResult<&'a [u8], Option<BoxHolder<'a>>>;
 
-pub fn to_boxes(input: &[u8]) -> crate::Result<Vec<BoxHolder<'_>>> {
-    let mut res = Vec::new();
-    let mut remain = input;
-    loop {
-        if remain.is_empty() {
-            break;
-        }
-
-        let (rem, bbox) = BoxHolder::parse(remain).map_err(|e| {
-            crate::error::nom_err_to_malformed(e, crate::error::MalformedKind::IsoBmffBox)
-        })?;
-        res.push(bbox);
-        // Sanity check, to avoid infinite loops caused by unexpected errors.
-        assert!(rem.len() < remain.len());
-        remain = rem;
-    }
-    Ok(res)
-}
-
 /// Parses every top level box while `predicate` returns true, then returns the
 /// last parsed box.
 pub fn travel_while<'a, F>(input: &'a [u8], mut predicate: F) -> BoxResult<'a>
diff --git a/src/mov.rs b/src/mov.rs
index 76646e0..ea03b10 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -3,7 +3,7 @@ use std::{collections::BTreeMap, ops::Range};
 use chrono::DateTime;
 use nom::{bytes::streaming, IResult};
 
-use crate::{bbox::to_boxes, values::filter_zero};
+use crate::{bbox::travel_while, values::filter_zero};
 use crate::{
     bbox::{
         find_box, parse_video_tkhd_in_moov, travel_header, IlstBox, KeysBox, MvhdBox, ParseBox,
@@ -207,15 +207,16 @@ fn parse_moov_body(input: &[u8]) -> EntriesResult<'_> {
 
     if let Ok((_, Some(udta))) = find_box(input, "udta") {
         tracing::debug!("udta");
-        if let Ok(boxes) = to_boxes(udta.body_data()) {
-            for entry in boxes.iter() {
-                tracing::debug!(?entry, "udta entry");
-                entries.push((
-                    format!("udta.{}", entry.box_type()),
-                    EntryValue::U8Array(Vec::from(entry.body_data())),
-                ));
-            }
-        }
+        // QuickTime allows a 32-bit zero after the last user data item, so keep
+        // the items parsed so far when the rest isn't a box.
+        let _ = travel_while(udta.body_data(), |entry| {
+            tracing::debug!(?entry, "udta entry");
+            entries.push((
+                format!("udta.{}", entry.box_type()),
+                EntryValue::U8Array(Vec::from(entry.body_data())),
+            ));
+            true
+        });
     }
 
     Ok((input, Some(entries)))
-- 
2.43.0


From b93feb22192198a7f7848923354ce96519c4e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 04/42] fix: resolve Matroska seek positions relative to the
 Segment data

---
 src/ebml/webm.rs | 105 +++++++++++++++++++++++------------------------
 1 file changed, 51 insertions(+), 54 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 0b0960c..230dbf4 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -98,65 +98,62 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
         ..Default::default()
     };
 
-    let mut info_set = false;
-    let mut tracks_set = false;
-
-    if let Ok(seeks) = parse_seeks(input, pos) {
-        let info_seek = seeks.get(&(SegmentId::Info as u32)).cloned();
-        let tracks_seek = seeks.get(&(SegmentId::Tracks as u32)).cloned();
-        if let Some(pos) = info_seek {
-            let info = parse_segment_info(input, pos as usize)?;
-            tracing::debug!(?info);
-            if let Some(info) = info {
-                info_set = true;
-                file_info.segment_info = info;
-            }
-        }
-        if let Some(pos) = tracks_seek {
-            let tracks = parse_tracks_info(input, pos as usize)?;
-            tracing::debug!(?tracks);
-            if let Some(info) = tracks {
-                tracks_set = true;
-                file_info.tracks_info = info;
-            }
-        }
-    }
+    let seeks = parse_seeks(input, pos).unwrap_or_default();
 
-    if !info_set {
-        // According to the specification, The first Info Element SHOULD occur
-        // before the first Tracks Element
-        let info: Option<SegmentInfo> = {
-            let mut cursor = Cursor::new(&input[pos..]);
-            let header = travel_while(&mut cursor, |h| h.id != SegmentId::Info as u64)?;
-            parse_segment_info(
-                &input[pos + cursor.position() as usize - header.header_size..],
-                0,
-            )
-        }?;
-        tracing::debug!(?info);
-        if let Some(info) = info {
-            file_info.segment_info = info;
-        }
+    let info_pos = locate_segment_element(input, pos, &seeks, SegmentId::Info)?;
+    let info = parse_segment_info(input, info_pos)?;
+    tracing::debug!(?info);
+    if let Some(info) = info {
+        file_info.segment_info = info;
     }
 
-    if !tracks_set {
-        let track = {
-            let mut cursor = Cursor::new(&input[pos..]);
-            let header = travel_while(&mut cursor, |h| h.id != SegmentId::Tracks as u64)?;
-            parse_tracks_info(
-                &input[pos + cursor.position() as usize - header.header_size..],
-                0,
-            )?
-        };
-        tracing::debug!(?track);
-        if let Some(info) = track {
-            file_info.tracks_info = info;
-        }
+    let tracks_pos = locate_segment_element(input, pos, &seeks, SegmentId::Tracks)?;
+    let tracks = parse_tracks_info(input, tracks_pos)?;
+    tracing::debug!(?tracks);
+    if let Some(info) = tracks {
+        file_info.tracks_info = info;
     }
 
     Ok(file_info)
 }
 
+/// Returns the position of the first `id` element of the Segment whose data
+/// begins at `pos`. `seeks` tells where to look when that element can't be
+/// reached by walking through the data read so far.
+fn locate_segment_element(
+    input: &[u8],
+    pos: usize,
+    seeks: &HashMap<u32, u64>,
+    id: SegmentId,
+) -> Result<usize, ParsingError> {
+    let mut cursor = Cursor::new(&input[pos..]);
+    let err = match travel_while(&mut cursor, |h| h.id != id as u64) {
+        Ok(header) => return Ok(pos + cursor.position() as usize - header.header_size),
+        Err(e) => ParsingError::from(e),
+    };
+
+    let Some(seek) = seeks
+        .get(&(id as u32))
+        .and_then(|x| usize::try_from(*x).ok())
+    else {
+        return Err(err);
+    };
+
+    let needed = match input.get(seek..).filter(|x| !x.is_empty()) {
+        Some(data) => match next_element_header(&mut Cursor::new(data)) {
+            Ok(header) if header.id == id as u64 => return Ok(seek),
+            Err(ParseEBMLFailed::Need(n)) => n,
+            // The seek entry is wrong
+            _ => return Err(err),
+        },
+        None => (seek - input.len()).saturating_add(1),
+    };
+    match err {
+        ParsingError::Need(n) => Err(ParsingError::Need(n.min(needed))),
+        _ => Err(ParsingError::Need(needed)),
+    }
+}
+
 #[derive(Debug, Clone, Default)]
 struct TracksInfo {
     width: u32,
@@ -388,11 +385,11 @@ fn parse_seeks(input: &[u8], pos: usize) -> Result<HashMap<u32, u64>, ParsingErr
         return Err(ParsingError::Need(header.data_size - cursor.remaining()));
     }
 
-    let header_pos = pos + cursor.position() as usize - header.header_size;
+    // Seek positions are relative to the beginning of the Segment's data.
     let mut cur = Cursor::new(&cursor.chunk()[..header.data_size]);
     let mut seeks = parse_seek_head(&mut cur)?;
-    for (_, pos) in seeks.iter_mut() {
-        *pos += header_pos as u64;
+    for (_, seek_pos) in seeks.iter_mut() {
+        *seek_pos = seek_pos.saturating_add(pos as u64);
     }
     Ok(seeks)
 }
-- 
2.43.0


From 1a9466f2d71445613bc7810a4c2f1fbd5cbc8675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 05/42] fix: read 4-byte EBML floats and step over unsupported
 element sizes

---
 src/ebml/element.rs |  3 ++-
 src/ebml/webm.rs    | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ebml/element.rs b/src/ebml/element.rs
index d70714e..f9bc218 100644
--- a/src/ebml/element.rs
+++ b/src/ebml/element.rs
@@ -250,7 +250,8 @@ pub(crate) fn get_as_f64(cursor: &mut Cursor<&[u8]>, size: usize) -> Option<f64>
 
     let n = match size {
         4 => {
-            let buf = [0u8; 4];
+            let mut buf = [0u8; 4];
+            cursor.read_exact(&mut buf).ok()?;
             f32::from_be_bytes(buf) as f64
         }
         5..=8 => {
diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 230dbf4..a74e338 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -343,6 +343,11 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
         let id = TryInto::<InfoId>::try_into(header.id);
         tracing::debug!(?header, "segment info sub-element");
 
+        if cursor.remaining() < header.data_size {
+            return Err(ParsingError::Need(header.data_size - cursor.remaining()));
+        }
+        let next = cursor.position() + header.data_size as u64;
+
         if let Ok(id) = id {
             match id {
                 InfoId::TimestampScale => {
@@ -368,9 +373,10 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
                     }
                 }
             }
-        } else {
-            cursor.consume(header.data_size);
         }
+
+        // The value of an element may have a size we don't support.
+        cursor.set_position(next);
     }
 
     Ok(info)
-- 
2.43.0


From 992b4016f9512b773b58e83cd4319f3e6fa5b980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 06/42] fix: report the Matroska duration and video size that
 are in the file

Apply a TimestampScale that comes after Duration, look at every track for
the video one, and leave out values the file doesn't have.
---
 src/ebml/webm.rs | 52 +++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index a74e338..6863014 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -31,7 +31,7 @@ pub struct EbmlFileInfo {
     #[allow(unused)]
     doc_type: String,
     segment_info: SegmentInfo,
-    tracks_info: TracksInfo,
+    tracks_info: Option<TracksInfo>,
 }
 
 impl From<EbmlFileInfo> for TrackInfo {
@@ -43,12 +43,16 @@ impl From<EbmlFileInfo> for TrackInfo {
                 EntryValue::DateTime(date.fixed_offset()),
             );
         }
-        info.put(
-            TrackInfoTag::DurationMs,
-            ((value.segment_info.duration / 1000.0 / 1000.0) as u64).into(),
-        );
-        info.put(TrackInfoTag::Width, value.tracks_info.width.into());
-        info.put(TrackInfoTag::Height, value.tracks_info.height.into());
+        if let Some(duration) = value.segment_info.duration {
+            info.put(
+                TrackInfoTag::DurationMs,
+                ((duration / 1000.0 / 1000.0) as u64).into(),
+            );
+        }
+        if let Some(tracks_info) = value.tracks_info {
+            info.put(TrackInfoTag::Width, tracks_info.width.into());
+            info.put(TrackInfoTag::Height, tracks_info.height.into());
+        }
         info
     }
 }
@@ -110,9 +114,7 @@ pub(crate) fn parse_webm(input: &[u8]) -> Result<EbmlFileInfo, ParsingError> {
     let tracks_pos = locate_segment_element(input, pos, &seeks, SegmentId::Tracks)?;
     let tracks = parse_tracks_info(input, tracks_pos)?;
     tracing::debug!(?tracks);
-    if let Some(info) = tracks {
-        file_info.tracks_info = info;
-    }
+    file_info.tracks_info = tracks;
 
     Ok(file_info)
 }
@@ -196,14 +198,17 @@ fn parse_tracks_info(input: &[u8], pos: usize) -> Result<Option<TracksInfo>, Par
                 return Err(nom::Err::Error((Z, ErrorKind::Fail)));
             }
 
-            let track = parse_track(&cursor.chunk()[..header.data_size]).map(|x| {
-                x.map(|x| TracksInfo {
-                    width: x.width,
-                    height: x.height,
-                })
-            })?;
-
-            Ok((Z, track))
+            match parse_track(&cursor.chunk()[..header.data_size])? {
+                Some(x) => Ok((
+                    Z,
+                    Some(TracksInfo {
+                        width: x.width,
+                        height: x.height,
+                    }),
+                )),
+                // Not a video track, look at the next one
+                None => Err(nom::Err::Error((Z, ErrorKind::Fail))),
+            }
         },
     )
     .parse(data)
@@ -306,7 +311,7 @@ struct VideoTrackInfo {
 #[derive(Debug, Clone, Default)]
 struct SegmentInfo {
     // in nano seconds
-    duration: f64,
+    duration: Option<f64>,
     date: Option<DateTime<Utc>>,
 }
 
@@ -336,6 +341,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
     // timestamp in nanosecond = element value * TimestampScale
     // By default, one segment tick represents one millisecond
     let mut time_scale = 1_000_000;
+    let mut duration = None;
     let mut info = SegmentInfo::default();
 
     while cursor.has_remaining() {
@@ -343,9 +349,6 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
         let id = TryInto::<InfoId>::try_into(header.id);
         tracing::debug!(?header, "segment info sub-element");
 
-        if cursor.remaining() < header.data_size {
-            return Err(ParsingError::Need(header.data_size - cursor.remaining()));
-        }
         let next = cursor.position() + header.data_size as u64;
 
         if let Ok(id) = id {
@@ -357,7 +360,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
                 }
                 InfoId::Duration => {
                     if let Some(v) = get_as_f64(cursor, header.data_size) {
-                        info.duration = v * time_scale as f64;
+                        duration = Some(v);
                     }
                 }
                 InfoId::Date => {
@@ -379,6 +382,9 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
         cursor.set_position(next);
     }
 
+    // TimestampScale can also come after Duration
+    info.duration = duration.map(|v| v * time_scale as f64);
+
     Ok(info)
 }
 
-- 
2.43.0


From c2a6499e0bd4502adffd062f9694ce363146aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 07/42] fix: recognise MP4 files by their compatible brands

---
 src/file.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index d9ad76e..c824d04 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,6 @@ use crate::{
     exif::TiffHeader,
     jpeg::check_jpeg,
     raf::RafInfo,
-    slice::SubsliceRange,
 };
 
 const HEIF_HEIC_BRAND_NAMES: &[&[u8]] = &[
@@ -187,7 +186,7 @@ fn parse_bmff_mime(input: &[u8]) -> crate::Result<MediaMime> {
 
     if MP4_BRAND_NAMES
         .iter()
-        .any(|v| compatible_brands.subslice_in_range(v.as_bytes()).is_some())
+        .any(|v| compatible_brands.find_substring(v.as_bytes()).is_some())
     {
         if major_brand.starts_with(b"3gp") {
             return Ok(MediaMime::Track(MediaMimeTrack::_3gpp));
-- 
2.43.0


From 8d74447f90e52dec5012cec6a85e92039d7b811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 08/42] fix: don't overflow on out-of-range HEIF item locations

---
 src/bbox/iloc.rs | 2 +-
 src/bbox/meta.rs | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bbox/iloc.rs b/src/bbox/iloc.rs
index 4f6ad98..4ba1179 100644
--- a/src/bbox/iloc.rs
+++ b/src/bbox/iloc.rs
@@ -120,7 +120,7 @@ impl IlocBox {
             let extent = item.extents.first()?;
             Some((
                 item.construction_method,
-                item.base_offset + extent.offset,
+                item.base_offset.checked_add(extent.offset)?,
                 extent.length,
             ))
         })
diff --git a/src/bbox/meta.rs b/src/bbox/meta.rs
index caa2b0d..50fc6ad 100644
--- a/src/bbox/meta.rs
+++ b/src/bbox/meta.rs
@@ -79,8 +79,10 @@ impl MetaBox {
                     .and_then(|iloc| iloc.item_offset_len(exif_infe.id))
             })
             .map(|(construction_method, offset, length)| {
-                let start = offset as usize;
-                let end = (offset + length) as usize;
+                let Some(end) = offset.checked_add(length) else {
+                    return fail().parse(input);
+                };
+                let (start, end) = (offset as usize, end as usize);
                 match construction_method {
                     ConstructionMethod::FileOffset => {
                         if end > input.len() {
@@ -113,8 +115,7 @@ impl MetaBox {
                     .and_then(|iloc| iloc.item_offset_len(exif_infe.id))
             })
             .and_then(|(construction_method, offset, length)| {
-                let start = offset as usize;
-                let end = (offset + length) as usize;
+                let (start, end) = (offset as usize, offset.checked_add(length)? as usize);
                 match construction_method {
                     ConstructionMethod::FileOffset => Some(start..end),
                     ConstructionMethod::IdatOffset => {
-- 
2.43.0


From 08506ca5af740761d4afed13361875daea7c5933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 09/42] fix: report a HEIF file without an Exif item as having
 no Exif

---
 src/bbox/meta.rs | 7 +++++++
 src/heif.rs      | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/bbox/meta.rs b/src/bbox/meta.rs
index 50fc6ad..3cc5de9 100644
--- a/src/bbox/meta.rs
+++ b/src/bbox/meta.rs
@@ -104,6 +104,13 @@ impl MetaBox {
             .unwrap_or(Ok((input, None)))
     }
 
+    /// Whether the item info lists an Exif item.
+    pub fn has_exif_item(&self) -> bool {
+        self.iinf
+            .as_ref()
+            .is_some_and(|iinf| iinf.get_infe("Exif").is_some())
+    }
+
     #[tracing::instrument(skip_all)]
     pub fn exif_data_offset(&self) -> Option<Range<usize>> {
         self.iinf
diff --git a/src/heif.rs b/src/heif.rs
index 5416564..95c1b78 100644
--- a/src/heif.rs
+++ b/src/heif.rs
@@ -36,6 +36,8 @@ pub(crate) fn extract_exif_data(
                     } else {
                         (Some(&buf[range]), None)
                     }
+                } else if !meta.has_exif_item() {
+                    (None, None)
                 } else {
                     return Err(ParsingErrorState::new(
                         ParsingError::Failed {
-- 
2.43.0


From 3e08c5bfbd6fdf6b5e8f1aa2e4c629d117e4dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 10/42] fix: find the TIFF header of a HEIF Exif item by its
 offset

---
 src/heif.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/heif.rs b/src/heif.rs
index 95c1b78..187cdf8 100644
--- a/src/heif.rs
+++ b/src/heif.rs
@@ -7,7 +7,7 @@ use crate::{
     error::{
         nom_error_to_parsing_error_with_state, MalformedKind, ParsingError, ParsingErrorState,
     },
-    exif::check_exif_header2,
+    exif::{check_exif_header2, TiffHeader},
     parser::ParsingState,
 };
 
@@ -62,11 +62,20 @@ pub(crate) fn extract_exif_data(
         }
     };
 
-    let data = data.and_then(|x| check_exif_header2(x).map(|x| x.0).ok());
+    let data = data.and_then(exif_item_payload);
 
     Ok((data, state))
 }
 
+/// An Exif item begins with the 32-bit offset of the TIFF header, counted from
+/// the end of that field. The `Exif\0\0` identifier in between is optional.
+fn exif_item_payload(item: &[u8]) -> Option<&[u8]> {
+    item.split_first_chunk::<4>()
+        .and_then(|(offset, remain)| remain.get(u32::from_be_bytes(*offset) as usize..))
+        .filter(|payload| TiffHeader::parse(payload).is_ok())
+        .or_else(|| check_exif_header2(item).map(|x| x.0).ok())
+}
+
 pub(crate) fn parse_meta_box(input: &[u8]) -> IResult<&[u8], Option<MetaBox>> {
     let remain = input;
     let (remain, bbox) = BoxHolder::parse(remain)?;
-- 
2.43.0


From e90e23462f1cd52b436a1890320ec2f08f8a2ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 11/42] fix: keep reading a HEIF file until its meta box
 arrives

---
 src/exif.rs | 38 +++++++++++++++++++++++++++++++-------
 src/heif.rs |  6 ++++++
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index 177d7b1..be51f8e 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -1,8 +1,9 @@
 use crate::error::{
-    nom_error_to_parsing_error_with_state, MalformedKind, ParsingError, ParsingErrorState,
+    nom_error_to_parsing_error_with_state, MalformedKind, ParsedError, ParsingError,
+    ParsingErrorState,
 };
 use crate::file::MediaMimeImage;
-use crate::parser::{BufParser, ParsingState, ShareBuf};
+use crate::parser::{Buf, BufParser, ParsingState, ShareBuf};
 use crate::raf::RafInfo;
 use crate::slice::SubsliceRange;
 use crate::{cr3, heif, jpeg, MediaParser};
@@ -43,9 +44,12 @@ pub(crate) fn parse_exif_iter<R: Read>(
         return parse_png_exif_iter(parser, reader, skip_by_seek);
     }
 
-    let out = parser.load_and_parse(reader, skip_by_seek, |buf, state| {
+    let out = match parser.load_and_parse(reader, skip_by_seek, |buf, state| {
         extract_exif_range(mime_img, buf, state)
-    })?;
+    }) {
+        Err(e) if is_heif_without_meta(mime_img, &e, parser.buffer()) => None,
+        out => out?,
+    };
 
     let has_track = match mime_img {
         MediaMimeImage::Jpeg => detect_motion_photo(parser, reader),
@@ -66,7 +70,6 @@ pub(crate) fn parse_exif_iter<R: Read>(
 /// the total extra reads at `MAX_EXTRA` so a malformed file can't loop
 /// forever.
 fn detect_motion_photo<R: Read>(parser: &mut MediaParser, reader: &mut R) -> bool {
-    use crate::parser::{Buf, BufParser};
     const CHUNK: usize = 8 * 1024;
     const MAX_EXTRA: usize = 256 * 1024;
     let mut extra = 0;
@@ -290,11 +293,15 @@ where
         return parse_png_exif_iter_async(parser, reader, skip_by_seek).await;
     }
 
-    let out = parser
+    let out = match parser
         .load_and_parse(reader, skip_by_seek, |buf, state| {
             extract_exif_range(mime_img, buf, state)
         })
-        .await?;
+        .await
+    {
+        Err(e) if is_heif_without_meta(mime_img, &e, parser.buffer()) => None,
+        out => out?,
+    };
 
     let has_track = match mime_img {
         MediaMimeImage::Jpeg => detect_motion_photo_async(parser, reader).await,
@@ -406,9 +413,26 @@ fn heif_extract_exif(
     state: Option<ParsingState>,
     buf: &[u8],
 ) -> Result<(Option<&[u8]>, Option<ParsingState>), ParsingErrorState> {
+    if state.is_none() && heif::is_meta_box_pending(buf) {
+        return Err(ParsingErrorState::new(ParsingError::Need(1), None));
+    }
     heif::extract_exif_data(state, buf)
 }
 
+/// A HEIF file that ends without a `meta` box has no Exif data.
+fn is_heif_without_meta(mime_img: MediaMimeImage, err: &ParsedError, buf: &[u8]) -> bool {
+    let is_eof = match err {
+        ParsedError::NoEnoughBytes => true,
+        ParsedError::IOError(e) => e.kind() == std::io::ErrorKind::UnexpectedEof,
+        ParsedError::Failed { .. } => false,
+    };
+    let is_heif = matches!(
+        mime_img,
+        MediaMimeImage::Heic | MediaMimeImage::Heif | MediaMimeImage::Avif
+    );
+    is_eof && is_heif && heif::is_meta_box_pending(buf)
+}
+
 fn cr3_extract_exif(
     state: Option<ParsingState>,
     buf: &[u8],
diff --git a/src/heif.rs b/src/heif.rs
index 187cdf8..c17bcd7 100644
--- a/src/heif.rs
+++ b/src/heif.rs
@@ -67,6 +67,12 @@ pub(crate) fn extract_exif_data(
     Ok((data, state))
 }
 
+/// Whether `buf` ends before the `meta` box: all the boxes in it are complete,
+/// and none of them is the `meta` box.
+pub(crate) fn is_meta_box_pending(buf: &[u8]) -> bool {
+    matches!(parse_meta_box(buf), Ok((_, None)))
+}
+
 /// An Exif item begins with the 32-bit offset of the TIFF header, counted from
 /// the end of that field. The `Exif\0\0` identifier in between is optional.
 fn exif_item_payload(item: &[u8]) -> Option<&[u8]> {
-- 
2.43.0


From bf0e60d159d12e8dfc1219324738f9646f4ae65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 12/42] fix: keep reading a CR3 file until its moov box arrives

---
 src/exif.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index be51f8e..9b49b65 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -101,16 +101,11 @@ fn parse_cr3_exif_iter<R: Read>(
 ) -> Result<ExifIter, crate::Error> {
     // First, parse to get all CMT ranges
     let cmt_ranges = parser.load_and_parse(reader, skip_by_seek, |buf, _state| {
-        cr3::extract_all_cmt_ranges(buf)
+        // The boxes so far are complete, the moov box is yet to come.
+        cr3::extract_all_cmt_ranges(buf)?
+            .ok_or_else(|| ParsingErrorState::new(ParsingError::Need(1), None))
     })?;
 
-    let Some(cmt_ranges) = cmt_ranges else {
-        return Err(crate::Error::Malformed {
-            kind: crate::error::MalformedKind::IsoBmffBox,
-            message: "cr3: no CMT data found".into(),
-        });
-    };
-
     if cmt_ranges.ranges.is_empty() {
         return Err(crate::Error::Malformed {
             kind: crate::error::MalformedKind::IsoBmffBox,
-- 
2.43.0


From ae481135946cb52ee92a243310e933cf90878d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:23 +0000
Subject: [PATCH 13/42] fix: read the CMT2 block of CR3 files in the async
 parser too

---
 src/exif.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/exif.rs b/src/exif.rs
index 9b49b65..4573305 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -106,6 +106,35 @@ fn parse_cr3_exif_iter<R: Read>(
             .ok_or_else(|| ParsingErrorState::new(ParsingError::Need(1), None))
     })?;
 
+    cr3_ranges_to_iter(parser, cmt_ranges)
+}
+
+/// Async twin of [`parse_cr3_exif_iter`].
+#[cfg(feature = "tokio")]
+#[tracing::instrument(skip(parser, reader, skip_by_seek))]
+async fn parse_cr3_exif_iter_async<P, R>(
+    parser: &mut P,
+    reader: &mut R,
+    skip_by_seek: crate::parser_async::AsyncSkipBySeekFn<R>,
+) -> Result<ExifIter, crate::Error>
+where
+    P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
+    R: AsyncRead + Unpin + Send,
+{
+    let cmt_ranges = parser
+        .load_and_parse(reader, skip_by_seek, |buf, _state| {
+            cr3::extract_all_cmt_ranges(buf)?
+                .ok_or_else(|| ParsingErrorState::new(ParsingError::Need(1), None))
+        })
+        .await?;
+
+    cr3_ranges_to_iter(parser, cmt_ranges)
+}
+
+fn cr3_ranges_to_iter(
+    parser: &mut impl ShareBuf,
+    cmt_ranges: cr3::Cr3CmtRanges,
+) -> Result<ExifIter, crate::Error> {
     if cmt_ranges.ranges.is_empty() {
         return Err(crate::Error::Malformed {
             kind: crate::error::MalformedKind::IsoBmffBox,
@@ -284,6 +313,9 @@ pub(crate) async fn parse_exif_iter_async<P, R: AsyncRead + Unpin + Send>(
 where
     P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
 {
+    if mime_img == MediaMimeImage::Cr3 {
+        return parse_cr3_exif_iter_async(parser, reader, skip_by_seek).await;
+    }
     if mime_img == MediaMimeImage::Png {
         return parse_png_exif_iter_async(parser, reader, skip_by_seek).await;
     }
-- 
2.43.0


From e325932961875fd7ffc5539eb54dce8b0c87adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 14/42] fix: wait for the embedded JPEG of a RAF file

---
 src/raf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raf.rs b/src/raf.rs
index 27252ce..5081a5f 100644
--- a/src/raf.rs
+++ b/src/raf.rs
@@ -48,7 +48,8 @@ impl RafInfo<'_> {
             })?;
         let (remain, _) = take(skip_n)(remain)?;
 
-        // parse as a JPEG
+        // parse as a JPEG; check_jpeg doesn't ask for more data
+        let _ = take(2usize)(remain)?;
         jpeg::check_jpeg(remain).map_err(|_| {
             nom::Err::Failure(nom::error::make_error(remain, nom::error::ErrorKind::Fail))
         })?;
-- 
2.43.0


From df305c97f111187a424b99f387d6714da14edf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 15/42] fix: step over JPEG APP1 segments that don't hold Exif

---
 src/jpeg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index 9a2f757..1304f39 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -222,7 +222,9 @@ fn find_exif_segment(input: &[u8]) -> IResult<&[u8], Option<Segment<'_>>> {
         );
 
         let s = &segment;
-        if (s.marker_code == MarkerCode::APP1.code() && check_exif_header(s.payload)?)
+        // An APP1 segment may hold something else than Exif, e.g. XMP
+        if (s.marker_code == MarkerCode::APP1.code()
+            && check_exif_header(s.payload).unwrap_or(false))
             || s.marker_code == MarkerCode::Sos.code()
         // searching stop at SOS
         {
-- 
2.43.0


From 4729245096d6aca9ccba4299a994fe3afea1b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 16/42] fix: keep the PNG chunks found before a skipped chunk

---
 src/exif.rs         | 22 ++++++-----
 src/parser_async.rs |  9 ++---
 src/png.rs          | 89 ++++++++++++++++++++++++++++++++++++---------
 3 files changed, 89 insertions(+), 31 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index 4573305..affbacc 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -196,7 +196,7 @@ fn cr3_ranges_to_iter(
 }
 
 /// Special parser for PNG files: walks the chunk stream via
-/// `png::extract_chunks`, materializes the resulting [`PngExifSource`]
+/// `PngChunks::extract`, materializes the resulting [`PngExifSource`]
 /// into an [`ExifIter`]. Phase 4: handles only the `eXIf` chunk path
 /// (legacy `Raw profile type *` decoding lands in phase 5).
 #[tracing::instrument(skip(reader, skip_by_seek))]
@@ -205,10 +205,11 @@ fn parse_png_exif_iter<R: Read>(
     reader: &mut R,
     skip_by_seek: crate::parser::SkipBySeekFn<R>,
 ) -> Result<ExifIter, crate::Error> {
-    use crate::png::{PngExifSource, PngParseOut};
+    use crate::png::{PngChunks, PngExifSource, PngParseOut};
 
+    let mut chunks = PngChunks::default();
     let out: PngParseOut = parser.load_and_parse(reader, skip_by_seek, |buf, state| {
-        crate::png::extract_chunks(buf, state)
+        chunks.extract(buf, state)
     })?;
 
     let Some(source) = out.exif else {
@@ -241,10 +242,11 @@ pub(crate) fn parse_png_full<R: Read>(
     reader: &mut R,
     skip_by_seek: crate::parser::SkipBySeekFn<R>,
 ) -> Result<(Option<ExifIter>, Vec<(String, String)>), crate::Error> {
-    use crate::png::{PngExifSource, PngParseOut};
+    use crate::png::{PngChunks, PngExifSource, PngParseOut};
 
+    let mut chunks = PngChunks::default();
     let out: PngParseOut = parser.load_and_parse(reader, skip_by_seek, |buf, state| {
-        crate::png::extract_chunks(buf, state)
+        chunks.extract(buf, state)
     })?;
 
     let exif_iter = match out.exif {
@@ -477,11 +479,12 @@ where
     P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
     R: AsyncRead + Unpin + Send,
 {
-    use crate::png::{PngExifSource, PngParseOut};
+    use crate::png::{PngChunks, PngExifSource, PngParseOut};
 
+    let mut chunks = PngChunks::default();
     let out: PngParseOut = parser
         .load_and_parse(reader, skip_by_seek, |buf, state| {
-            crate::png::extract_chunks(buf, state)
+            chunks.extract(buf, state)
         })
         .await?;
 
@@ -514,11 +517,12 @@ where
     P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
     R: AsyncRead + Unpin + Send,
 {
-    use crate::png::{PngExifSource, PngParseOut};
+    use crate::png::{PngChunks, PngExifSource, PngParseOut};
 
+    let mut chunks = PngChunks::default();
     let out: PngParseOut = parser
         .load_and_parse(reader, skip_by_seek, |buf, state| {
-            crate::png::extract_chunks(buf, state)
+            chunks.extract(buf, state)
         })
         .await?;
 
diff --git a/src/parser_async.rs b/src/parser_async.rs
index 4f55438..cb46df9 100644
--- a/src/parser_async.rs
+++ b/src/parser_async.rs
@@ -173,10 +173,10 @@ pub(crate) trait AsyncBufParser: Buf + Debug {
         &mut self,
         reader: &mut R,
         skip_by_seek: AsyncSkipBySeekFn<R>,
-        parse: P,
+        mut parse: P,
     ) -> Result<O, ParsedError>
     where
-        P: Fn(&[u8], Option<ParsingState>) -> Result<O, ParsingErrorState>,
+        P: FnMut(&[u8], Option<ParsingState>) -> Result<O, ParsingErrorState>,
     {
         self.load_and_parse_with_offset(
             reader,
@@ -192,18 +192,17 @@ pub(crate) trait AsyncBufParser: Buf + Debug {
         &mut self,
         reader: &mut R,
         skip_by_seek: AsyncSkipBySeekFn<R>,
-        parse: P,
+        mut parse: P,
         offset: usize,
     ) -> Result<O, ParsedError>
     where
-        P: Fn(&[u8], usize, Option<ParsingState>) -> Result<O, ParsingErrorState>,
+        P: FnMut(&[u8], usize, Option<ParsingState>) -> Result<O, ParsingErrorState>,
     {
         if offset >= self.buffer().len() {
             self.fill_buf(reader, MIN_GROW_SIZE).await?;
         }
 
         let mut parsing_state: Option<ParsingState> = None;
-        let mut parse = parse; // coerce Fn → FnMut
         loop {
             match parse_loop_step(self.buffer(), offset, &mut parsing_state, &mut parse) {
                 LoopAction::Done(o) => return Ok(o),
diff --git a/src/png.rs b/src/png.rs
index 030a6e8..c6e8ef9 100644
--- a/src/png.rs
+++ b/src/png.rs
@@ -17,7 +17,7 @@ use std::ops::Range;
 use crate::error::{MalformedKind, ParsingError, ParsingErrorState};
 use crate::parser::ParsingState;
 
-/// Output of [`extract_chunks`]: where the EXIF data lives (if any) and
+/// Output of [`PngChunks::extract`]: where the EXIF data lives (if any) and
 /// every `tEXt` (key, value) pair encountered, in file order.
 #[derive(Debug)]
 pub(crate) struct PngParseOut {
@@ -103,6 +103,66 @@ fn hex_decode(s: &str) -> Result<Vec<u8>, ()> {
     Ok(out)
 }
 
+#[cfg(test)]
+pub(crate) fn extract_chunks(
+    buf: &[u8],
+    state: Option<ParsingState>,
+) -> Result<PngParseOut, ParsingErrorState> {
+    PngChunks::default().extract(buf, state)
+}
+
+/// What [`PngChunks::extract`] found in the data that a `ClearAndSkip` made
+/// the parser drop. A `Need` keeps the buffer, which is walked again then.
+#[derive(Debug, Default)]
+pub(crate) struct PngChunks {
+    exif: Option<Vec<u8>>,
+    exif_priority: u8,
+    text_chunks: Vec<(String, String)>,
+    text_total: usize,
+}
+
+impl PngChunks {
+    /// See [`walk_chunks`].
+    #[tracing::instrument(skip(self, buf))]
+    pub(crate) fn extract(
+        &mut self,
+        buf: &[u8],
+        state: Option<ParsingState>,
+    ) -> Result<PngParseOut, ParsingErrorState> {
+        let mut out = PngParseOut {
+            exif: None,
+            text_chunks: Vec::new(),
+        };
+        let mut text_total = self.text_total;
+        let mut exif_priority = self.exif_priority;
+
+        let res = walk_chunks(buf, state, &mut out, &mut text_total, &mut exif_priority);
+        match res {
+            Ok(()) => {
+                let mut text_chunks = std::mem::take(&mut self.text_chunks);
+                text_chunks.append(&mut out.text_chunks);
+                let exif = out
+                    .exif
+                    .or_else(|| self.exif.take().map(PngExifSource::Legacy));
+                Ok(PngParseOut { exif, text_chunks })
+            }
+            Err(e) => {
+                if matches!(e.err, ParsingError::ClearAndSkip(_)) {
+                    match out.exif {
+                        Some(PngExifSource::EXif(range)) => self.exif = Some(buf[range].to_vec()),
+                        Some(PngExifSource::Legacy(bytes)) => self.exif = Some(bytes),
+                        None => {}
+                    }
+                    self.exif_priority = exif_priority;
+                    self.text_chunks.append(&mut out.text_chunks);
+                    self.text_total = text_total;
+                }
+                Err(e)
+            }
+        }
+    }
+}
+
 /// Walk the PNG chunk stream and extract EXIF + tEXt entries.
 ///
 /// Pure function: no I/O, takes a buffer slice plus the resume-state
@@ -124,11 +184,13 @@ fn hex_decode(s: &str) -> Result<Vec<u8>, ()> {
 /// `cursor + total`, not `total - remaining` — the latter would only
 /// account for bytes past the buffer's end and leave the walker
 /// stranded mid-chunk on retry (issue #55).
-#[tracing::instrument(skip(buf))]
-pub(crate) fn extract_chunks(
+fn walk_chunks(
     buf: &[u8],
     state: Option<ParsingState>,
-) -> Result<PngParseOut, ParsingErrorState> {
+    out: &mut PngParseOut,
+    text_total: &mut usize,
+    exif_priority: &mut u8, // 0 = none, 1 = legacy exif, 2 = legacy APP1, 3 = eXIf
+) -> Result<(), ParsingErrorState> {
     let past_signature = matches!(state, Some(ParsingState::PngPastSignature));
     // Preserves the incoming flag across error returns. A `Need` keeps
     // whatever the caller already had; only `ClearAndSkip` flips a
@@ -159,13 +221,6 @@ pub(crate) fn extract_chunks(
         PNG_SIGNATURE.len()
     };
 
-    let mut out = PngParseOut {
-        exif: None,
-        text_chunks: Vec::new(),
-    };
-    let mut text_total: usize = 0;
-    let mut exif_priority: u8 = 0; // 0 = none, 1 = legacy exif, 2 = legacy APP1, 3 = eXIf
-
     loop {
         // Need 8 bytes for the chunk header (length:4 + type:4).
         if buf.len() - cursor < 8 {
@@ -212,7 +267,7 @@ pub(crate) fn extract_chunks(
                 let data_end = data_start + length as usize;
                 // eXIf has priority 3 (highest), always wins.
                 out.exif = Some(PngExifSource::EXif(data_start..data_end));
-                exif_priority = 3;
+                *exif_priority = 3;
                 cursor += total;
             }
             b"tEXt" => {
@@ -247,7 +302,7 @@ pub(crate) fn extract_chunks(
                         "Raw profile type exif" => 1,
                         _ => 0,
                     };
-                    if candidate_priority > 0 && candidate_priority > exif_priority {
+                    if candidate_priority > 0 && candidate_priority > *exif_priority {
                         if let Ok(mut bytes) = decode_raw_profile_value(&value) {
                             // Strip APP1's leading "Exif\0\0" if present.
                             if key.ends_with("APP1") && bytes.starts_with(b"Exif\0\0") {
@@ -257,7 +312,7 @@ pub(crate) fn extract_chunks(
                             // + magic number) before accepting.
                             if bytes.len() >= 8 && crate::exif::TiffHeader::parse(&bytes).is_ok() {
                                 out.exif = Some(PngExifSource::Legacy(bytes));
-                                exif_priority = candidate_priority;
+                                *exif_priority = candidate_priority;
                             }
                             // else: silently drop the legacy candidate, keep raw text entry below
                         }
@@ -265,8 +320,8 @@ pub(crate) fn extract_chunks(
                     }
 
                     let entry_size = key.len() + value.len();
-                    if text_total + entry_size <= MAX_TEXT_CHUNKS_TOTAL {
-                        text_total += entry_size;
+                    if *text_total + entry_size <= MAX_TEXT_CHUNKS_TOTAL {
+                        *text_total += entry_size;
                         out.text_chunks.push((key, value));
                     }
                     // else: silently skip (already-captured entries kept).
@@ -287,7 +342,7 @@ pub(crate) fn extract_chunks(
         }
     }
 
-    Ok(out)
+    Ok(())
 }
 
 #[cfg(test)]
-- 
2.43.0


From a3fbcadf328098112e155a7b91903f3f0a8ae632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 17/42] fix: load all the data of TIFF files before parsing it

---
 src/exif.rs        |  39 +++++--
 src/exif/travel.rs | 275 ++++++++++++++++-----------------------------
 2 files changed, 124 insertions(+), 190 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index affbacc..820b947 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -47,7 +47,7 @@ pub(crate) fn parse_exif_iter<R: Read>(
     let out = match parser.load_and_parse(reader, skip_by_seek, |buf, state| {
         extract_exif_range(mime_img, buf, state)
     }) {
-        Err(e) if is_heif_without_meta(mime_img, &e, parser.buffer()) => None,
+        Err(e) if is_eof(&e) => exif_range_at_eof(mime_img, parser.buffer()).ok_or(e)?,
         out => out?,
     };
 
@@ -328,7 +328,7 @@ where
         })
         .await
     {
-        Err(e) if is_heif_without_meta(mime_img, &e, parser.buffer()) => None,
+        Err(e) if is_eof(&e) => exif_range_at_eof(mime_img, parser.buffer()).ok_or(e)?,
         out => out?,
     };
 
@@ -448,18 +448,35 @@ fn heif_extract_exif(
     heif::extract_exif_data(state, buf)
 }
 
-/// A HEIF file that ends without a `meta` box has no Exif data.
-fn is_heif_without_meta(mime_img: MediaMimeImage, err: &ParsedError, buf: &[u8]) -> bool {
-    let is_eof = match err {
+fn is_eof(err: &ParsedError) -> bool {
+    match err {
         ParsedError::NoEnoughBytes => true,
         ParsedError::IOError(e) => e.kind() == std::io::ErrorKind::UnexpectedEof,
         ParsedError::Failed { .. } => false,
-    };
-    let is_heif = matches!(
-        mime_img,
-        MediaMimeImage::Heic | MediaMimeImage::Heif | MediaMimeImage::Avif
-    );
-    is_eof && is_heif && heif::is_meta_box_pending(buf)
+    }
+}
+
+/// What to make of the loaded data if the parser asked for more of it at the
+/// end of the input. `None` means that the input is incomplete.
+#[allow(clippy::type_complexity)]
+fn exif_range_at_eof(
+    mime_img: MediaMimeImage,
+    buf: &[u8],
+) -> Option<Option<(Range<usize>, Option<TiffHeader>)>> {
+    match mime_img {
+        // A HEIF file that ends without a `meta` box has no Exif data.
+        MediaMimeImage::Heic | MediaMimeImage::Heif | MediaMimeImage::Avif => {
+            heif::is_meta_box_pending(buf).then_some(None)
+        }
+        // Some of the TIFF data is out of the file, which only affects the
+        // entries that refer to it.
+        MediaMimeImage::Tiff => {
+            let (_, header) = TiffHeader::parse(buf).ok()?;
+            let has_ifd0 = (header.ifd0_offset as usize) < buf.len();
+            has_ifd0.then_some(Some((0..buf.len(), None)))
+        }
+        _ => None,
+    }
 }
 
 fn cr3_extract_exif(
diff --git a/src/exif/travel.rs b/src/exif/travel.rs
index 39bf989..c2324e9 100644
--- a/src/exif/travel.rs
+++ b/src/exif/travel.rs
@@ -1,28 +1,21 @@
-use nom::{
-    number::{streaming, Endianness},
-    IResult, Needed, Parser,
-};
+use std::collections::HashSet;
+
+use nom::number::{complete, Endianness};
+use nom::Parser;
 
 use crate::{
     error::{MalformedKind, ParsingError},
-    exif::TiffHeader,
-    values::{array_to_string, DataFormat},
-    TagOrCode,
+    parser::MAX_PARSE_BUF_SIZE,
+    values::DataFormat,
+    ExifTag, TagOrCode,
 };
 
 use super::{exif_exif::IFD_ENTRY_SIZE, exif_iter::SUBIFD_TAGS};
 
 /// Only iterates headers, don't parse entries.
 ///
-/// Currently only used to extract Exif data for *.tiff files.
-///
-/// NOTE: `parse_tag_entry_header` short-circuits on `tag == 0` as a guard
-/// against zero-padded malformed IFDs. This is safe **today** because we
-/// only observe `sub_ifd_offset`, and tag 0 is never in `SUBIFD_TAGS`. If
-/// this struct is ever extended to emit entry values, gate that
-/// short-circuit on "not inside the GPS sub-IFD" — tag 0 is the legitimate
-/// GPSVersionID and dropping it loses every following GPS field. See
-/// `IfdIter::is_gps_subifd` in `exif_iter.rs` and issue #50.
+/// Currently only used to extract Exif data for *.tiff files: tells whether
+/// all the data that `ExifIter` will look at has been loaded.
 pub(crate) struct IfdHeaderTravel<'a> {
     // starts from file beginning
     data: &'a [u8],
@@ -35,18 +28,6 @@ pub(crate) struct IfdHeaderTravel<'a> {
     offset: usize,
 }
 
-#[derive(Debug, Clone)]
-pub(crate) struct EntryInfo<'a> {
-    pub tag: u16,
-    #[allow(unused)]
-    pub data: &'a [u8],
-    #[allow(unused)]
-    pub data_format: DataFormat,
-    #[allow(unused)]
-    pub data_offset: Option<u32>,
-    pub sub_ifd_offset: Option<u32>,
-}
-
 impl<'a> IfdHeaderTravel<'a> {
     pub fn new(input: &'a [u8], offset: usize, tag: TagOrCode, endian: Endianness) -> Self {
         Self {
@@ -57,113 +38,9 @@ impl<'a> IfdHeaderTravel<'a> {
         }
     }
 
-    #[tracing::instrument(skip_all)]
-    fn parse_tag_entry_header(
-        &'a self,
-        entry_data: &'a [u8],
-    ) -> IResult<&'a [u8], Option<EntryInfo<'a>>> {
-        let endian = self.endian;
-        let (remain, (tag, data_format, components_num, value_or_offset)) = (
-            streaming::u16::<_, nom::error::Error<_>>(endian),
-            streaming::u16(endian),
-            streaming::u32(endian),
-            streaming::u32(endian),
-        )
-            .parse(entry_data)?;
-
-        if tag == 0 {
-            return Ok((remain, None));
-        }
-
-        let data_format: DataFormat = match data_format.try_into() {
-            Ok(df) => df,
-            // Ignore errors here
-            Err(e) => {
-                tracing::warn!(?e, "Ignored: IFD entry data format error");
-                return Ok((&[][..], None));
-            }
-        };
-
-        // get component_size according to data format
-        let component_size = data_format.component_size();
-
-        // get entry data
-        let size = components_num as usize * component_size;
-        let (data, data_offset) = if size > 4 {
-            let start = self.get_data_pos(value_or_offset) as usize;
-            let end = start + size;
-            tracing::debug!(
-                components_num,
-                size,
-                "tag {:04x} entry data start {:08x} end {:08x} my_offset: {:08x} data len {:08x}",
-                tag,
-                value_or_offset,
-                start,
-                end,
-                self.data.len(),
-            );
-            if end > self.data.len() {
-                return Err(nom::Err::Incomplete(Needed::new(end - self.data.len())));
-            }
-            (&self.data[start..end], Some(start as u32))
-        } else {
-            (entry_data, None)
-        };
-
-        let sub_ifd_offset = if SUBIFD_TAGS.contains(&tag) {
-            let offset = self.get_data_pos(value_or_offset);
-            if offset > 0 {
-                Some(offset)
-            } else {
-                None
-            }
-        } else {
-            None
-        };
-
-        let entry = EntryInfo {
-            tag,
-            data,
-            data_format,
-            data_offset,
-            sub_ifd_offset,
-        };
-        Ok((&[][..], Some(entry)))
-    }
-
-    fn get_data_pos(&'a self, value_or_offset: u32) -> u32 {
-        // value_or_offset.saturating_sub(self.offset)
-        value_or_offset
-    }
-
-    #[tracing::instrument(skip(self))]
-    fn parse_ifd_entry_header(&self, pos: u32) -> IResult<&[u8], Option<IfdHeaderTravel<'a>>> {
-        let (_, entry_data) =
-            nom::bytes::streaming::take(IFD_ENTRY_SIZE)(&self.data[pos as usize..])?;
-
-        let (remain, entry) = self.parse_tag_entry_header(entry_data)?;
-
-        if let Some(entry) = entry {
-            // if !cb(&entry) {
-            //     return Ok((&[][..], ()));
-            // }
-
-            if let Some(offset) = entry.sub_ifd_offset {
-                let tag: TagOrCode = entry.tag.into();
-                tracing::debug!(?offset, data_len = self.data.len(), "sub-ifd: {:?}", tag);
-
-                // Full fill bytes until sub-ifd header
-                let (_, _) =
-                    nom::bytes::streaming::take(offset as usize - remain.len() + 2)(self.data)?;
-
-                let sub_ifd = IfdHeaderTravel::new(self.data, offset as usize, tag, self.endian);
-                return Ok((remain, Some(sub_ifd)));
-            }
-        }
-
-        Ok((remain, None))
-    }
-
+    /// Returns [`ParsingError::Need`] if any of the IFDs that can be reached
+    /// from this one, or the data of any of their entries, is not (entirely)
+    /// within the input.
     #[tracing::instrument(skip(self))]
     pub fn travel_ifd(&mut self, depth: usize) -> Result<(), ParsingError> {
         if depth >= 3 {
@@ -175,63 +52,103 @@ impl<'a> IfdHeaderTravel<'a> {
             });
         }
 
-        if self.offset + 2 > self.data.len() {
-            return Err(ParsingError::Failed {
-                kind: MalformedKind::TiffHeader,
-                message: format!("invalid ifd offset: {}", self.offset),
-            });
+        let is_gps = self.tag.tag() == Some(ExifTag::GPSInfo);
+        let mut travel = Travel {
+            data: self.data,
+            endian: self.endian,
+            end: 0,
+            ifds: vec![(self.offset, is_gps)],
+        };
+        let mut visited = HashSet::new();
+        while let Some((offset, is_gps)) = travel.ifds.pop() {
+            if visited.insert(offset) {
+                travel.visit(offset, is_gps);
+            }
         }
 
-        let (_, entry_num) =
-            TiffHeader::parse_ifd_entry_num(&self.data[self.offset..], self.endian).map_err(
-                |e: nom::Err<nom::error::Error<&[u8]>>| ParsingError::Failed {
-                    kind: MalformedKind::TiffHeader,
-                    message: format!("parse ifd entry count failed: {e:?}"),
-                },
-            )?;
-        let mut pos = self.offset + 2;
+        match travel.end.checked_sub(self.data.len()) {
+            Some(n) if n > 0 => Err(ParsingError::Need(n)),
+            _ => Ok(()),
+        }
+    }
+}
+
+struct Travel<'a> {
+    data: &'a [u8],
+    endian: Endianness,
+    /// Where the data in use ends
+    end: usize,
+    /// The IFDs to visit: offset, and whether it's the GPS sub-IFD
+    ifds: Vec<(usize, bool)>,
+}
+
+impl Travel<'_> {
+    fn u16_at(&self, pos: usize) -> Option<u16> {
+        let data = self.data.get(pos..)?;
+        let res = complete::u16::<_, nom::error::Error<&[u8]>>(self.endian).parse(data);
+        res.ok().map(|x| x.1)
+    }
 
-        let mut sub_ifds = Vec::new();
+    fn u32_at(&self, pos: usize) -> Option<u32> {
+        let data = self.data.get(pos..)?;
+        let res = complete::u32::<_, nom::error::Error<&[u8]>>(self.endian).parse(data);
+        res.ok().map(|x| x.1)
+    }
 
-        // parse entries
-        for _ in 0..entry_num {
-            if pos >= self.data.len() {
-                break;
+    /// Data the parser is unable to load is left out, it will be reported as a
+    /// truncated entry.
+    fn require(&mut self, end: usize) {
+        if end <= MAX_PARSE_BUF_SIZE {
+            self.end = self.end.max(end);
+        }
+    }
+
+    fn visit(&mut self, offset: usize, is_gps: bool) {
+        self.require(offset + 2);
+        let Some(entry_num) = self.u16_at(offset) else {
+            return;
+        };
+        let entries = offset + 2;
+        let next = entries + entry_num as usize * IFD_ENTRY_SIZE;
+        self.require(next + 4);
+
+        for pos in (entries..next).step_by(IFD_ENTRY_SIZE) {
+            let (Some(tag), Some(data_format), Some(components_num), Some(value_or_offset)) = (
+                self.u16_at(pos),
+                self.u16_at(pos + 2),
+                self.u32_at(pos + 4),
+                self.u32_at(pos + 8),
+            ) else {
+                return;
+            };
+
+            // Guard against zero-padded malformed IFDs, see
+            // `IfdIter::parse_tag_entry`.
+            if tag == 0 && !is_gps {
+                return;
             }
-            let (_, sub_ifd) = self.parse_ifd_entry_header(pos as u32).map_err(
-                |e: nom::Err<nom::error::Error<&[u8]>>| ParsingError::Failed {
-                    kind: MalformedKind::IfdEntry,
-                    message: format!("parse ifd entry header failed: {e:?}"),
-                },
-            )?;
-            pos += IFD_ENTRY_SIZE;
+            // Ignore errors here
+            let Ok(data_format) = DataFormat::try_from(data_format) else {
+                continue;
+            };
 
-            if let Some(ifd) = sub_ifd {
-                tracing::debug!(
-                    data = array_to_string("bytes", self.data),
-                    tag = ifd.tag.to_string(),
-                );
-                sub_ifds.push(ifd);
+            let size = components_num as usize * data_format.component_size();
+            if size > 4 {
+                self.require((value_or_offset as usize).saturating_add(size));
+            }
+            if SUBIFD_TAGS.contains(&tag) && value_or_offset > 0 {
+                let is_gps = tag == ExifTag::GPSInfo.code();
+                self.ifds.push((value_or_offset as usize, is_gps));
             }
         }
 
-        for mut ifd in sub_ifds {
-            ifd.travel_ifd(depth + 1)?;
+        match self.u32_at(next) {
+            None | Some(0) => {}
+            Some(offset) => self.ifds.push((offset as usize, false)),
         }
-
-        // Currently, we ignore ifd1 data in *.tif files
-        Ok(())
     }
 }
 
-// fn keep_incomplete_err_only<T: Debug>(e: nom::Err<T>) -> nom::Err<String> {
-//     match e {
-//         nom::Err::Incomplete(n) => nom::Err::Incomplete(n),
-//         nom::Err::Error(e) => nom::Err::Error(format!("parse ifd error: {:?}", e)),
-//         nom::Err::Failure(_) => nom::Err::Failure("parse ifd failure".to_string()),
-//     }
-// }
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 190c9f0da1cd5852783358bb2dcdd11c86147b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:05 +0000
Subject: [PATCH 18/42] fix: rewind and clone go back to the primary block's
 IFD0

---
 src/exif/exif_iter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index bbbf75b..2a7e909 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -438,9 +438,9 @@ impl ExifIter {
         // Try to create an ExifIter for this block
         match input_into_iter(block_data, header) {
             Ok(iter) => {
-                // Update our state with the new block's data
-                self.ifd0 = iter.ifd0;
-                self.ifds = vec![self.ifd0.clone()];
+                // Continue with the new block's IFD0. `self.ifd0` stays that
+                // of the primary block, which is where a rewind goes back to.
+                self.ifds = vec![iter.ifd0];
                 self.visited_offsets.clear();
                 self.current_block_index += 1;
 
-- 
2.43.0


From 855e512cd1fcdd3cba8d6d246fd67a69b63804cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:05 +0000
Subject: [PATCH 19/42] fix: keep the entries that follow a repeated sub-IFD
 pointer

---
 src/exif/exif_iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 2a7e909..44e7177 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -510,7 +510,11 @@ impl Iterator for ExifIter {
                         IfdEntry::IfdNew(new_ifd) => {
                             if new_ifd.offset > 0 {
                                 if self.visited_offsets.contains(&new_ifd.offset) {
-                                    // Ignore repeated ifd parsing to avoid dead looping
+                                    // Ignore repeated ifd parsing to avoid dead looping,
+                                    // but go on with the rest of the current ifd.
+                                    if new_ifd.ifd_idx == cur_ifd_idx {
+                                        self.ifds.push(ifd);
+                                    }
                                     continue;
                                 }
                                 self.visited_offsets.insert(new_ifd.offset);
-- 
2.43.0


From 30520096c21f7e3fe4966d850bf38a2a146bddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 20/42] fix: read the next-IFD pointer of an IFD at the end of
 the data

---
 src/exif/exif_iter.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 44e7177..c4b9310 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -592,7 +592,7 @@ pub(crate) struct IfdIter {
     pub tz: Option<String>,
 
     // Iterating status
-    index: u16,
+    index: u32,
     pos: usize,
 }
 
@@ -1034,15 +1034,12 @@ impl Iterator for IfdIter {
             pos = format!("{:08x}", self.pos),
             "next IFD entry"
         );
-        if self.input.len() < self.pos + IFD_ENTRY_SIZE {
-            return None;
-        }
-
         let endian = self.header.endian;
-        if self.index > self.entry_num {
+        let entry_num = u32::from(self.entry_num);
+        if self.index > entry_num {
             return None;
         }
-        if self.index == self.entry_num {
+        if self.index == entry_num {
             tracing::debug!(
                 self.ifd_idx,
                 self.index,
@@ -1053,7 +1050,8 @@ impl Iterator for IfdIter {
 
             // next IFD offset
             let (_, offset) =
-                complete::u32::<_, nom::error::Error<_>>(endian)(&self.input[self.pos..]).ok()?;
+                complete::u32::<_, nom::error::Error<_>>(endian)(self.input.get(self.pos..)?)
+                    .ok()?;
 
             if offset == 0 {
                 // IFD parsing completed
-- 
2.43.0


From 38e14b30520e29820c830afd8d9d22cd8651f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 21/42] fix: parse the GPS sub-IFD in the TIFF block that holds
 it

---
 src/exif/exif_iter.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index c4b9310..47decff 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -265,7 +265,13 @@ impl ExifIter {
             }
             Err(e) => return Err(e.clone().into()),
         };
-        if offset as usize >= iter.input.len() {
+        // The entry may come from any of the TIFF blocks, and its offset is
+        // relative to that block.
+        let (input, header) = match iter.ifds.last() {
+            Some(ifd) => (&ifd.input, &ifd.header),
+            None => (&iter.input, &iter.tiff_header),
+        };
+        if offset as usize >= input.len() {
             return Err(crate::Error::Malformed {
                 kind: crate::error::MalformedKind::IfdEntry,
                 message: "GPSInfo offset out of range".into(),
@@ -274,8 +280,8 @@ impl ExifIter {
 
         let mut gps_subifd = match IfdIter::try_new(
             gps.ifd().as_usize(),
-            iter.input.clone(),
-            iter.tiff_header,
+            input.clone(),
+            header.to_owned(),
             offset as usize,
             iter.tz.clone(),
         ) {
-- 
2.43.0


From 891baa20f5a52cec303ee3ee4f39957978d6ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 22/42] fix: report the entries that failed to parse

---
 src/exif/exif_iter.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 47decff..5684af7 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -159,6 +159,8 @@ pub struct ExifIter {
     current_block_index: usize,
     /// Tags encountered so far for duplicate filtering (ifd_index, tag_code)
     encountered_tags: HashSet<(usize, u16)>,
+    /// Tags whose entry has been yielded as an error (ifd_index, tag_code)
+    failed_tags: HashSet<(usize, u16)>,
     has_embedded_track: bool,
 }
 
@@ -200,6 +202,7 @@ impl ExifIter {
             additional_blocks: Vec::new(),
             current_block_index: 0,
             encountered_tags: HashSet::new(),
+            failed_tags: HashSet::new(),
             has_embedded_track: false,
         }
     }
@@ -220,6 +223,7 @@ impl ExifIter {
             additional_blocks: self.additional_blocks.clone(),
             current_block_index: 0,
             encountered_tags: HashSet::new(),
+            failed_tags: HashSet::new(),
             has_embedded_track: self.has_embedded_track,
         }
     }
@@ -233,6 +237,7 @@ impl ExifIter {
         self.visited_offsets.clear();
         self.current_block_index = 0;
         self.encountered_tags.clear();
+        self.failed_tags.clear();
     }
 
     /// Try to find and parse GPS information.
@@ -402,6 +407,14 @@ impl ExifIterEntry {
             res: Ok(v),
         }
     }
+
+    pub(crate) fn make_err(ifd: usize, tag: TagOrCode, e: crate::error::EntryError) -> Self {
+        Self {
+            ifd: IfdIndex::new(ifd),
+            tag,
+            res: Err(e),
+        }
+    }
 }
 
 impl std::fmt::Debug for ExifIterEntry {
@@ -570,8 +583,17 @@ impl Iterator for ExifIter {
                         }
                         IfdEntry::Err(e) => {
                             tracing::warn!(?tag_code, ?e, "parse ifd entry error");
+                            let ifd_idx = ifd.ifd_idx;
                             self.ifds.push(ifd);
-                            continue;
+                            let Some(tag) = tag_code else {
+                                continue;
+                            };
+                            let key = (ifd_idx, tag.code());
+                            if self.encountered_tags.contains(&key) || !self.failed_tags.insert(key)
+                            {
+                                continue;
+                            }
+                            return Some(ExifIterEntry::make_err(ifd_idx, tag, e));
                         }
                     }
                 }
-- 
2.43.0


From 359ec76a7a16e451cc93b2208f970370bec4a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 23/42] fix: find the Motion Photo track of an in-memory JPEG
 too

---
 src/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 91655da..c53d64e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -844,6 +844,9 @@ impl MediaParser {
                 // Memory mode: zero-copy.
                 self.state.set_memory(memory);
                 let mime_track = match ms.mime {
+                    crate::file::MediaMime::Image(crate::file::MediaMimeImage::Jpeg) => {
+                        return self.parse_motion_photo_trailer();
+                    }
                     crate::file::MediaMime::Image(_) => return Err(crate::Error::TrackNotFound),
                     crate::file::MediaMime::Track(t) => t,
                 };
@@ -884,7 +887,13 @@ impl MediaParser {
         // Drain the rest of the JPEG into the parse buffer so we can
         // address the trailing MP4 by its byte offset from EOF.
         reader.read_to_end(self.buf_mut())?;
-        let buf = self.buf_mut();
+        self.parse_motion_photo_trailer()
+    }
+
+    /// The part of [`Self::parse_jpeg_motion_photo`] that works on the parse
+    /// buffer, once it holds the whole JPEG.
+    fn parse_motion_photo_trailer(&self) -> crate::Result<TrackInfo> {
+        let buf = self.buffer();
         let Some(offset) = crate::jpeg::find_motion_photo_offset(buf) else {
             return Err(crate::Error::TrackNotFound);
         };
-- 
2.43.0


From 714971c344bde894a5c32802788c50f7ee7bff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:23 +0000
Subject: [PATCH 24/42] fix: parse_track of a short image stream reports that
 there is no track

---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index c53d64e..4ef454a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -856,7 +856,13 @@ impl MediaParser {
                 })?;
                 Ok(out)
             } else {
-                // Streaming mode: existing path verbatim.
+                // Streaming mode: existing path verbatim, except that an image
+                // which cannot hold a track is refused before reading on.
+                if let crate::file::MediaMime::Image(img) = ms.mime {
+                    if img != crate::file::MediaMimeImage::Jpeg {
+                        return Err(crate::Error::TrackNotFound);
+                    }
+                }
                 self.acquire_buf();
                 self.buf_mut().append(&mut ms.buf);
                 self.fill_buf(&mut ms.reader, INIT_BUF_SIZE)?;
-- 
2.43.0


From 5d4619ae3d4eeab2e9bdb5eebc3ad86efc61cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:47 +0000
Subject: [PATCH 25/42] fix: keep the input out of box error messages

---
 src/bbox/tkhd.rs |  7 ++-----
 src/file.rs      | 10 ++++------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/bbox/tkhd.rs b/src/bbox/tkhd.rs
index 7a014a7..5fab581 100644
--- a/src/bbox/tkhd.rs
+++ b/src/bbox/tkhd.rs
@@ -4,7 +4,7 @@ use nom::{
     Parser,
 };
 
-use crate::error::MalformedKind;
+use crate::error::{nom_err_to_malformed, MalformedKind};
 
 use super::{find_box, travel_while, BoxHolder, FullBoxHeader, ParseBody, ParseBox};
 
@@ -134,10 +134,7 @@ fn find_video_track(input: &[u8]) -> crate::Result<Option<BoxHolder<'_>>> {
             }
         }
     })
-    .map_err(|e| crate::Error::Malformed {
-        kind: MalformedKind::IsoBmffBox,
-        message: format!("find vide trak failed: {e:?}"),
-    })?;
+    .map_err(|e| nom_err_to_malformed(e, MalformedKind::IsoBmffBox))?;
 
     Ok(bbox)
 }
diff --git a/src/file.rs b/src/file.rs
index c824d04..e98d71e 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -4,7 +4,7 @@ use std::io::Cursor;
 use crate::{
     bbox::{travel_header, BoxHolder},
     ebml::element::parse_ebml_doc_type,
-    error::MalformedKind,
+    error::{nom_err_to_malformed, MalformedKind},
     exif::TiffHeader,
     jpeg::check_jpeg,
     raf::RafInfo,
@@ -218,10 +218,8 @@ fn check_png(input: &[u8]) -> Result<(), ()> {
 }
 
 fn get_ftyp_and_major_brand(input: &[u8]) -> crate::Result<(BoxHolder<'_>, Option<&[u8]>)> {
-    let (_, bbox) = BoxHolder::parse(input).map_err(|e| crate::Error::Malformed {
-        kind: MalformedKind::IsoBmffBox,
-        message: format!("parse ftyp failed: {e}"),
-    })?;
+    let (_, bbox) =
+        BoxHolder::parse(input).map_err(|e| nom_err_to_malformed(e, MalformedKind::IsoBmffBox))?;
 
     if bbox.box_type() == "ftyp" {
         if bbox.body_data().len() < 4 {
@@ -234,7 +232,7 @@ fn get_ftyp_and_major_brand(input: &[u8]) -> crate::Result<(BoxHolder<'_>, Optio
             });
         }
         let (_, ftyp) = complete::take(4_usize)(bbox.body_data())
-            .map_err(|e| crate::error::nom_err_to_malformed(e, MalformedKind::IsoBmffBox))?;
+            .map_err(|e| nom_err_to_malformed(e, MalformedKind::IsoBmffBox))?;
         Ok((bbox, Some(ftyp)))
     } else if bbox.box_type() == "wide" {
         // MOV files that extracted from HEIC starts with `wide` & `mdat` atoms
-- 
2.43.0


From 81643106486920f50590a614c35b8be064579986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 26/42] fix: rexiftool exits with failure when the given file
 cannot be parsed

---
 crates/rexiftool/src/main.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/rexiftool/src/main.rs b/crates/rexiftool/src/main.rs
index d5da6e1..438fd5f 100644
--- a/crates/rexiftool/src/main.rs
+++ b/crates/rexiftool/src/main.rs
@@ -60,26 +60,30 @@ fn tracing_run(cli: &Cli) -> ExitCode {
         init_tracing().expect("init tracing failed");
     }
 
-    if let Err(err) = run(cli) {
-        tracing::error!(?err);
-        eprintln!("{err}");
-        return ExitCode::FAILURE;
+    match run(cli) {
+        Ok(code) => code,
+        Err(err) => {
+            tracing::error!(?err);
+            eprintln!("{err}");
+            ExitCode::FAILURE
+        }
     }
-
-    ExitCode::SUCCESS
 }
 
-fn run(cli: &Cli) -> Result<(), Box<dyn Error>> {
+fn run(cli: &Cli) -> Result<ExitCode, Box<dyn Error>> {
     let mut parser = MediaParser::new();
 
     let path = Path::new(&cli.file);
     if path.is_file() {
-        let _ = parse_file(&mut parser, path, cli);
+        // parse_file has already reported the error
+        if parse_file(&mut parser, path, cli).is_err() {
+            return Ok(ExitCode::FAILURE);
+        }
     } else if path.is_dir() {
         parse_dir(path, parser, cli)?;
     }
 
-    Ok(())
+    Ok(ExitCode::SUCCESS)
 }
 
 fn parse_dir(path: &Path, mut parser: MediaParser, cli: &Cli) -> Result<(), Box<dyn Error>> {
-- 
2.43.0


From 7614f138bb535ae9fa5ed95b233e3dd9162624ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 27/42] fix: rexiftool reports a path that is neither a file
 nor a directory

---
 crates/rexiftool/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rexiftool/src/main.rs b/crates/rexiftool/src/main.rs
index 438fd5f..a5c3cb7 100644
--- a/crates/rexiftool/src/main.rs
+++ b/crates/rexiftool/src/main.rs
@@ -81,6 +81,10 @@ fn run(cli: &Cli) -> Result<ExitCode, Box<dyn Error>> {
         }
     } else if path.is_dir() {
         parse_dir(path, parser, cli)?;
+    } else {
+        // report why the path cannot be used (e.g. it doesn't exist)
+        fs::metadata(path).map_err(|e| format!("Error: {}: {e}", path.display()))?;
+        return Err(format!("Error: {}: not a file or directory", path.display()).into());
     }
 
     Ok(ExitCode::SUCCESS)
-- 
2.43.0


From 68e3715ec537fe7762a54c8422485d15cf6fc6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 28/42] fix: rexiftool reports a failed track parse

---
 crates/rexiftool/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rexiftool/src/main.rs b/crates/rexiftool/src/main.rs
index a5c3cb7..cf1fa2d 100644
--- a/crates/rexiftool/src/main.rs
+++ b/crates/rexiftool/src/main.rs
@@ -192,7 +192,7 @@ fn parse_file<P: AsRef<Path>>(
             (exif_values, track_values, fmt_pairs)
         }
         MediaKind::Track => {
-            let info: TrackInfo = parser.parse_track(ms)?;
+            let info: TrackInfo = parser.parse_track(ms).inspect_err(handle_parsing_error)?;
             (track_info_to_pairs(&info), None, None)
         }
     };
-- 
2.43.0


From def7c33fb069b016454995f15b19d9134898df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 29/42] fix: rexiftool could not be given a path that is not
 valid UTF-8

---
 crates/rexiftool/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rexiftool/src/main.rs b/crates/rexiftool/src/main.rs
index cf1fa2d..6fac490 100644
--- a/crates/rexiftool/src/main.rs
+++ b/crates/rexiftool/src/main.rs
@@ -2,7 +2,7 @@ use std::{
     error::Error,
     fs::{self, File},
     io::{self},
-    path::Path,
+    path::{Path, PathBuf},
     process::ExitCode,
 };
 
@@ -13,7 +13,7 @@ use tracing_subscriber::{layer::SubscriberExt, util::SubscriberInitExt, Registry
 #[derive(Parser, Debug)]
 #[command(author, version, about, long_about = None)]
 struct Cli {
-    file: String,
+    file: PathBuf,
 
     #[arg(short, long)]
     json: bool,
@@ -73,7 +73,7 @@ fn tracing_run(cli: &Cli) -> ExitCode {
 fn run(cli: &Cli) -> Result<ExitCode, Box<dyn Error>> {
     let mut parser = MediaParser::new();
 
-    let path = Path::new(&cli.file);
+    let path = cli.file.as_path();
     if path.is_file() {
         // parse_file has already reported the error
         if parse_file(&mut parser, path, cli).is_err() {
-- 
2.43.0


From 3e309f29af3ad4f3efc8b27c2689119f5c3e00f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 30/42] fix: don't enter a sub-IFD at offset 0 over and over

---
 src/exif/exif_iter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 5684af7..71bd245 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -817,7 +817,8 @@ impl IfdIter {
         tag: Option<u16>,
     ) -> Option<IfdEntry> {
         let offset = self.get_data_pos(value_or_offset);
-        if offset < self.input.len() {
+        // There is never an IFD at offset 0, that's where the TIFF header is.
+        if offset > 0 && offset < self.input.len() {
             match IfdIter::try_new(
                 ifd_idx,
                 self.input.clone(),
-- 
2.43.0


From 567f69daf9f5f55bfc6673777ca64079b186daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 31/42] fix: keep the ilst items that follow one that can't be
 decoded

---
 src/bbox/ilst.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/bbox/ilst.rs b/src/bbox/ilst.rs
index 7598654..3c97575 100644
--- a/src/bbox/ilst.rs
+++ b/src/bbox/ilst.rs
@@ -1,7 +1,6 @@
 use nom::bytes::complete::{tag, take};
 use nom::combinator::{fail, map_res};
 use nom::error::context;
-use nom::multi::many0;
 use nom::number::complete::{
     be_f32, be_f64, be_i16, be_i24, be_i32, be_i64, be_u16, be_u24, be_u32, be_u64, u8,
 };
@@ -27,8 +26,17 @@ pub struct IlstBox {
 
 impl IlstBox {
     pub fn parse_box(input: &[u8]) -> nom::IResult<&[u8], IlstBox> {
-        let (remain, header) = BoxHeader::parse(input)?;
-        let (remain, items) = many0(IlstItem::parse).parse(remain)?;
+        let (mut remain, header) = BoxHeader::parse(input)?;
+        let mut items = Vec::new();
+        while let Ok((rem, data)) = IlstItem::split(remain) {
+            // An item that can't be decoded (an artwork, for example) doesn't
+            // hide the items after it.
+            match IlstItem::parse(data) {
+                Ok((_, item)) => items.push(item),
+                Err(e) => tracing::warn!(?e, "skip an ilst item"),
+            }
+            remain = rem;
+        }
 
         Ok((remain, IlstBox { header, items }))
     }
@@ -50,6 +58,15 @@ pub struct IlstItem {
 }
 
 impl IlstItem {
+    /// Split off the data of the first item.
+    fn split(input: &[u8]) -> nom::IResult<&[u8], &[u8]> {
+        let (_, size) = be_u32(input)?;
+        if size < 8 {
+            return fail().parse(input);
+        }
+        take(size)(input)
+    }
+
     fn parse<'a>(input: &'a [u8]) -> nom::IResult<&'a [u8], IlstItem> {
         let (remain, (size, index, data_len, _, type_set, type_code, local)) =
             (be_u32, be_u32, be_u32, tag("data"), u8, be_u24, be_u32).parse(input)?;
@@ -58,8 +75,8 @@ impl IlstItem {
             context("invalid ilst item", fail::<_, (), _>()).parse(remain)?;
         }
 
-        // assert_eq!(size - 24, data_len - 16);
-        if size - 24 != data_len - 16 {
+        // The item may have further values (in other languages).
+        if size - 24 < data_len - 16 {
             context("invalid ilst item", fail::<_, (), _>()).parse(remain)?;
         }
 
-- 
2.43.0


From 89508e2c1d32bbae9e5a053cb6ac9c3366e38bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 32/42] fix: read the metadata of a moov whose meta is a full
 box

---
 src/mov.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mov.rs b/src/mov.rs
index ea03b10..0fb7217 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -227,11 +227,16 @@ fn parse_meta(input: &[u8]) -> Option<Vec<(String, EntryValue)>> {
         return None;
     };
 
-    let (_, Some(keys)) = find_box(meta.body_data(), "keys").ok()? else {
+    // `meta` is a full box in ISO base media files (version & flags come before
+    // its children), and a plain one in QuickTime files.
+    let body = meta.body_data();
+    let body = body.strip_prefix(&[0; 4]).unwrap_or(body);
+
+    let (_, Some(keys)) = find_box(body, "keys").ok()? else {
         return None;
     };
 
-    let (_, Some(ilst)) = find_box(meta.body_data(), "ilst").ok()? else {
+    let (_, Some(ilst)) = find_box(body, "ilst").ok()? else {
         return None;
     };
 
-- 
2.43.0


From 2768acf92d6cf4a00e9ab9561615dc5da6e00c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 33/42] fix: a key that is not valid UTF-8 hid all the
 QuickTime metadata

---
 src/bbox/keys.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bbox/keys.rs b/src/bbox/keys.rs
index 7fe827d..a81d125 100644
--- a/src/bbox/keys.rs
+++ b/src/bbox/keys.rs
@@ -1,5 +1,5 @@
 use nom::bytes::complete::take;
-use nom::combinator::{flat_map, map_res};
+use nom::combinator::{flat_map, map, map_res};
 use nom::multi::many_m_n;
 use nom::number::complete::be_u32;
 use nom::Parser;
@@ -46,14 +46,15 @@ pub struct KeyEntry {
 
 impl KeyEntry {
     fn parse<'a>(input: &'a [u8]) -> nom::IResult<&'a [u8], KeyEntry> {
-        let (remain, s) = map_res(
+        // A key that isn't valid UTF-8 is of no use, but keep it in its place.
+        let (remain, s) = map(
             flat_map(
                 map_res(be_u32, |len| {
                     len.checked_sub(4).ok_or("invalid KeyEntry header")
                 }),
                 take,
             ),
-            |bs: &'a [u8]| String::from_utf8(bs.to_vec()),
+            |bs: &'a [u8]| String::from_utf8_lossy(bs).into_owned(),
         )
         .parse(input)?;
 
-- 
2.43.0


From 821696c44cf8a63d224c667f8b8b30a44d6a8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 34/42] =?UTF-8?q?fix:=20the=20location=20of=20a=20udta=20?=
 =?UTF-8?q?=C2=A9xyz=20ends=20where=20its=20size=20says?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/mov.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mov.rs b/src/mov.rs
index 0fb7217..71321a5 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -115,8 +115,14 @@ fn parse_udta_gps(data: &[u8]) -> Option<String> {
         tracing::warn!("moov/udta/©xyz body is too small");
         None
     } else {
-        // The first 4 bytes is zero, skip them
-        let location = data[4..] // Safe-slice
+        // The first 4 bytes are the size and the language of the text (or zero),
+        // and the same text in other languages may follow it.
+        let size = u16::from_be_bytes([data[0], data[1]]) as usize;
+        let texts = &data[4..]; // Safe-slice
+        let location = texts
+            .get(..size)
+            .filter(|x| !x.is_empty())
+            .unwrap_or(texts)
             .iter()
             .map(|b| *b as char)
             .collect::<String>();
-- 
2.43.0


From 7695119802bdc7b2c0e1ec1fcf54fe75bd3916c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 35/42] fix: each of the three Exif dates has a time zone of
 its own

---
 src/exif/exif_iter.rs | 90 +++++++++++++++++++++++++++++++++----------
 1 file changed, 69 insertions(+), 21 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 71bd245..1e833a5 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -119,10 +119,16 @@ pub(crate) fn input_into_iter(
     }
     tracing::debug!(?header, offset = start);
 
-    let mut ifd0 = IfdIter::try_new(0, input.clone(), header.to_owned(), start, None)?;
-
-    let tz = ifd0.find_tz_offset();
-    ifd0.tz = tz.clone();
+    let mut ifd0 = IfdIter::try_new(
+        0,
+        input.clone(),
+        header.to_owned(),
+        start,
+        DateZones::default(),
+    )?;
+
+    ifd0.tz = ifd0.find_tz_offset();
+    let tz = ifd0.tz.any().clone();
     let iter: ExifIter = ExifIter::new(input, header, tz, ifd0);
 
     tracing::debug!(?iter, "got IFD0");
@@ -288,7 +294,7 @@ impl ExifIter {
             input.clone(),
             header.to_owned(),
             offset as usize,
-            iter.tz.clone(),
+            iter.ifd0.tz.clone(),
         ) {
             Ok(ifd0) => ifd0.tag_code(ExifTag::GPSInfo.code()),
             Err(e) => return Err(e),
@@ -603,6 +609,41 @@ impl Iterator for ExifIter {
     }
 }
 
+/// The time zones stored in the Exif IFD, one for each of the dates.
+#[derive(Clone, Debug, Default)]
+pub(crate) struct DateZones {
+    modify: Option<String>,
+    original: Option<String>,
+    digitized: Option<String>,
+    /// Some of the IFD is missing, and maybe some of its time zones.
+    partial: bool,
+}
+
+impl DateZones {
+    /// The time zone of a date without one of its own.
+    fn any(&self) -> &Option<String> {
+        [&self.original, &self.digitized]
+            .into_iter()
+            .find(|x| x.is_some())
+            .unwrap_or(&self.modify)
+    }
+
+    /// The time zone of the date with the given tag.
+    fn of(&self, tag: u16) -> &Option<String> {
+        let own = match ExifTag::from_code(tag) {
+            Some(ExifTag::ModifyDate) => &self.modify,
+            Some(ExifTag::DateTimeOriginal) => &self.original,
+            Some(ExifTag::CreateDate) => &self.digitized,
+            _ => return &None,
+        };
+        if own.is_some() || self.partial {
+            own
+        } else {
+            self.any()
+        }
+    }
+}
+
 #[derive(Clone)]
 pub(crate) struct IfdIter {
     ifd_idx: usize,
@@ -617,7 +658,7 @@ pub(crate) struct IfdIter {
     header: TiffHeader,
     entry_num: u16,
 
-    pub tz: Option<String>,
+    pub tz: DateZones,
 
     // Iterating status
     index: u32,
@@ -681,7 +722,7 @@ impl IfdIter {
         input: Bytes,
         header: TiffHeader,
         offset: usize,
-        tz: Option<String>,
+        tz: DateZones,
     ) -> crate::Result<Self> {
         if input.len() < 2 {
             return Err(crate::Error::Malformed {
@@ -804,7 +845,7 @@ impl IfdIter {
             data_format,
             components_num,
         };
-        match EntryValue::parse(&entry, &self.tz) {
+        match EntryValue::parse(&entry, self.tz.of(tag)) {
             Ok(v) => (tag, IfdEntry::Entry(v)),
             Err(e) => (tag, IfdEntry::Err(e)),
         }
@@ -862,23 +903,30 @@ impl IfdIter {
         None
     }
 
-    pub fn find_tz_offset(&self) -> Option<String> {
-        let iter = self.find_exif_iter()?;
-        let mut offset = None;
-        for entry in iter {
-            let Some(tag) = entry.0 else {
-                continue;
+    pub fn find_tz_offset(&self) -> DateZones {
+        let mut zones = DateZones::default();
+        let Some(iter) = self.find_exif_iter() else {
+            return zones;
+        };
+        let end = iter.offset + 2 + usize::from(iter.entry_num) * IFD_ENTRY_SIZE;
+        zones.partial = end > iter.input.len();
+        for (tag, entry) in iter {
+            let zone = match tag.and_then(|x| x.tag()) {
+                Some(ExifTag::OffsetTime) => &mut zones.modify,
+                Some(ExifTag::OffsetTimeOriginal) => &mut zones.original,
+                Some(ExifTag::OffsetTimeDigitized) => &mut zones.digitized,
+                _ => continue,
             };
-            if tag.code() == ExifTag::OffsetTimeOriginal.code()
-                || tag.code() == ExifTag::OffsetTimeDigitized.code()
-            {
-                return entry.1.as_str().map(|x| x.to_owned());
-            } else if tag.code() == ExifTag::OffsetTime.code() {
-                offset = entry.1.as_str().map(|x| x.to_owned());
+            if zone.is_none() {
+                // a zone that can't be read is an unknown one
+                *zone = Some(entry.as_str().unwrap_or_default().to_owned());
+            }
+            if zones.modify.is_some() && zones.original.is_some() && zones.digitized.is_some() {
+                break;
             }
         }
 
-        offset
+        zones
     }
 
     // Assume the current ifd is GPSInfo subifd.
-- 
2.43.0


From ec09b5ab3585e578963430aa88d764f81f9ddca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 36/42] fix: fill bytes before a JPEG marker hid the EXIF data

Any marker may be preceded by any number of 0xFF fill bytes (ITU-T T.81,
B.1.1.2).
---
 src/jpeg.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index 1304f39..e2fcedf 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -39,9 +39,7 @@ pub(crate) enum MotionPhotoScan {
 pub(crate) fn scan_motion_photo(input: &[u8]) -> MotionPhotoScan {
     let mut remain = input;
     loop {
-        let parsed: IResult<&[u8], (&[u8], u8)> =
-            (streaming::tag(&[0xFF_u8][..]), number::streaming::u8).parse(remain);
-        let (rem, (_, code)) = match parsed {
+        let (rem, code) = match parse_marker(remain) {
             Ok(t) => t,
             Err(nom::Err::Incomplete(_)) => return MotionPhotoScan::NeedMoreBytes,
             Err(_) => return MotionPhotoScan::NotPresent,
@@ -209,8 +207,7 @@ fn find_exif_segment(input: &[u8]) -> IResult<&[u8], Option<Segment<'_>>> {
     let mut remain = input;
 
     let (remain, segment) = loop {
-        let (rem, (_, code)) =
-            (streaming::tag(&[0xFF_u8][..]), number::streaming::u8).parse(remain)?;
+        let (rem, code) = parse_marker(remain)?;
         let (rem, segment) = parse_segment(code, rem)?;
         // Sanity check
         assert!(rem.len() < remain.len());
@@ -270,6 +267,14 @@ pub fn check_jpeg(input: &[u8]) -> crate::Result<()> {
     Ok(())
 }
 
+/// Parse the code of a marker, which may be preceded by any number of 0xFF
+/// fill bytes.
+fn parse_marker(input: &[u8]) -> IResult<&[u8], u8> {
+    let (remain, _) = streaming::tag(&[0xFF_u8][..]).parse(input)?;
+    let (remain, _) = streaming::take_while(|b| b == 0xFF).parse(remain)?;
+    number::streaming::u8(remain)
+}
+
 fn parse_segment(marker_code: u8, input: &[u8]) -> IResult<&[u8], Segment<'_>> {
     let remain = input;
 
-- 
2.43.0


From 75e929389de1ddcd2aee6d1ec9f1120bba9fe6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 37/42] fix: compute the duration in milliseconds without
 rounding errors

---
 src/bbox/mvhd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bbox/mvhd.rs b/src/bbox/mvhd.rs
index 2ac3567..d18ff1f 100644
--- a/src/bbox/mvhd.rs
+++ b/src/bbox/mvhd.rs
@@ -40,7 +40,11 @@ pub struct MvhdBox {
 
 impl MvhdBox {
     pub fn duration_ms(&self) -> u64 {
-        ((self.duration as f64) / (self.time_scale as f64) * 1000_f64) as u64
+        if self.time_scale == 0 {
+            return 0;
+        }
+        let ms = u128::from(self.duration) * 1000 / u128::from(self.time_scale);
+        u64::try_from(ms).unwrap_or(u64::MAX)
     }
 
     fn creation_time_naive(&self) -> NaiveDateTime {
-- 
2.43.0


From 0dbbdc638818ccbd045349332ad60c3fbb8ece6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 38/42] fix: read the author of a movie in any language and in
 UTF-16

---
 src/mov.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/mov.rs b/src/mov.rs
index 71321a5..164a216 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -130,19 +130,25 @@ fn parse_udta_gps(data: &[u8]) -> Option<String> {
     }
 }
 
-const ISO_639_2_UND: [u8; 2] = [0x55, 0xc4];
-
+/// `auth` is a full box, its version & flags are followed by the language (three
+/// packed 5-bit letters) and the zero-terminated text in UTF-8, or in UTF-16 when
+/// it starts with a byte order mark. Refer to 3GPP TS 26.244.
 fn parse_udta_auth(data: &[u8]) -> Option<String> {
-    // Skip leading zero bytes
-    let data = filter_zero(data);
+    let text = match data {
+        [0, 0, 0, 0, _, _, text @ ..] => text,
+        _ => data,
+    };
 
-    // Skip leading language flags.
-    // Refer to: https://exiftool.org/forum/index.php?topic=11498.0
-    if data.starts_with(&ISO_639_2_UND) {
-        String::from_utf8(data.into_iter().skip(2).collect()).ok()
-    } else {
-        String::from_utf8(data).ok()
+    if let Some(text) = text.strip_prefix(&[0xFE, 0xFF]) {
+        let units = text
+            .chunks_exact(2)
+            .map(|x| u16::from_be_bytes([x[0], x[1]]))
+            .take_while(|x| *x != 0)
+            .collect::<Vec<_>>();
+        return String::from_utf16(&units).ok();
     }
+
+    String::from_utf8(filter_zero(text)).ok()
 }
 
 /// Parse the byte data of an ISOBMFF file and return the potential body data of
-- 
2.43.0


From 592153401968919aaaffd2afc3e7631a1c30f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 39/42] fix: round the altitude of an ISO 6709 location to
 millimetres

---
 src/exif/gps.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exif/gps.rs b/src/exif/gps.rs
index d6af139..de602f2 100644
--- a/src/exif/gps.rs
+++ b/src/exif/gps.rs
@@ -337,7 +337,7 @@ impl GPSInfo {
         let altitude = match v.altitude {
             None => Altitude::Unknown,
             Some(x) => {
-                let mag = URational::new((x.abs() * 1000.0).trunc() as u32, 1000);
+                let mag = URational::new((x.abs() * 1000.0).round() as u32, 1000);
                 if x >= 0.0 {
                     Altitude::AboveSeaLevel(mag)
                 } else {
-- 
2.43.0


From 879876bc7a10ec88de5f6d2e0c97b06fc09e6f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 40/42] fix: a RAF camera name without terminating zero doesn't
 hide the Exif data

---
 src/raf.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/raf.rs b/src/raf.rs
index 5081a5f..23e6a94 100644
--- a/src/raf.rs
+++ b/src/raf.rs
@@ -3,7 +3,7 @@ use nom::{
     number, IResult,
 };
 
-use crate::{jpeg, utils::parse_cstr};
+use crate::jpeg;
 
 const MAGIC: &[u8] = b"FUJIFILMCCD-RAW ";
 
@@ -55,7 +55,10 @@ impl RafInfo<'_> {
         })?;
         let (remain, exif_data) = jpeg::extract_exif_data(remain)?;
 
-        let (_, camera_string) = parse_cstr(camera_string)?;
+        // A name that takes all the 32 bytes has no terminating zero.
+        let end = camera_string.iter().position(|x| *x == 0);
+        let camera_string = &camera_string[..end.unwrap_or(camera_string.len())];
+        let camera_string = String::from_utf8_lossy(camera_string).into_owned();
 
         Ok((
             remain,
-- 
2.43.0


From 1e1dd6adb6894437aaa89a81b8dadf0a1b4a1863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 41/42] fix: rexiftool goes on when standard error cannot be
 written

---
 crates/rexiftool/src/main.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/rexiftool/src/main.rs b/crates/rexiftool/src/main.rs
index 6fac490..6b4b2c2 100644
--- a/crates/rexiftool/src/main.rs
+++ b/crates/rexiftool/src/main.rs
@@ -1,7 +1,7 @@
 use std::{
     error::Error,
     fs::{self, File},
-    io::{self},
+    io::{self, Write as _},
     path::{Path, PathBuf},
     process::ExitCode,
 };
@@ -10,6 +10,13 @@ use clap::Parser;
 use nom_exif::{ExifIter, ImageFormatMetadata, MediaKind, MediaParser, MediaSource, TrackInfo};
 use tracing_subscriber::{layer::SubscriberExt, util::SubscriberInitExt, Registry};
 
+/// Like `eprintln!`, but goes on when standard error cannot be written.
+macro_rules! complain {
+    ($($arg:tt)*) => {{
+        let _ = writeln!(io::stderr(), $($arg)*);
+    }};
+}
+
 #[derive(Parser, Debug)]
 #[command(author, version, about, long_about = None)]
 struct Cli {
@@ -64,7 +71,7 @@ fn tracing_run(cli: &Cli) -> ExitCode {
         Ok(code) => code,
         Err(err) => {
             tracing::error!(?err);
-            eprintln!("{err}");
+            complain!("{err}");
             ExitCode::FAILURE
         }
     }
@@ -112,7 +119,7 @@ fn parse_dir(path: &Path, mut parser: MediaParser, cli: &Cli) -> Result<(), Box<
                 let _ = parse_file(&mut parser, p, cli);
             }
             Err(e) => {
-                eprintln!("Read dir entry failed: {e}");
+                complain!("Read dir entry failed: {e}");
                 continue;
             }
         }
@@ -179,7 +186,7 @@ fn parse_file<P: AsRef<Path>>(
                 match MediaSource::open(path).and_then(|ms| parser.parse_track(ms)) {
                     Ok(info) => Some(track_info_to_pairs(&info)),
                     Err(e) => {
-                        eprintln!(
+                        complain!(
                             "Warning: image flags an embedded track but parse_track failed: {e}"
                         );
                         None
@@ -370,17 +377,17 @@ fn emit_json(
     }
     match serde_json::to_string_pretty(&Value::Object(root)) {
         Ok(s) => println!("{s}"),
-        Err(e) => eprintln!("Error: {e}"),
+        Err(e) => complain!("Error: {e}"),
     }
 }
 
 fn handle_parsing_error(e: &nom_exif::Error) {
     match e {
         nom_exif::Error::UnsupportedFormat => {
-            eprintln!("Unrecognized file format, consider filing a bug @ https://github.com/mindeng/nom-exif.");
+            complain!("Unrecognized file format, consider filing a bug @ https://github.com/mindeng/nom-exif.");
         }
         _ => {
-            eprintln!("Error: {e}");
+            complain!("Error: {e}");
         }
     }
 }
-- 
2.43.0


From 707ce678c68e70c8c4d0fdc37d347cfe985a58ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:51 +0000
Subject: [PATCH 42/42] fix: report a pointer to a directory that has been read
 already

---
 src/exif/exif_iter.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 1e833a5..c40ec94 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -536,11 +536,23 @@ impl Iterator for ExifIter {
                             if new_ifd.offset > 0 {
                                 if self.visited_offsets.contains(&new_ifd.offset) {
                                     // Ignore repeated ifd parsing to avoid dead looping,
-                                    // but go on with the rest of the current ifd.
-                                    if new_ifd.ifd_idx == cur_ifd_idx {
-                                        self.ifds.push(ifd);
+                                    // but go on with the rest of the current ifd, and
+                                    // still report the entry pointing to it.
+                                    if new_ifd.ifd_idx != cur_ifd_idx {
+                                        continue;
                                     }
-                                    continue;
+                                    self.ifds.push(ifd);
+                                    let Some(tc) = tag_code else {
+                                        continue;
+                                    };
+                                    if !self.should_include_tag(cur_ifd_idx, tc.code()) {
+                                        continue;
+                                    }
+                                    return Some(ExifIterEntry::make_ok(
+                                        cur_ifd_idx,
+                                        tc,
+                                        EntryValue::U32(new_ifd.offset as u32),
+                                    ));
                                 }
                                 self.visited_offsets.insert(new_ifd.offset);
                             }
-- 
2.43.0

