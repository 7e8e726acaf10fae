From b2b62233ed95affd1e1a0d31d2f7344e2dfff20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 01/15] fix: compare signatures in operand order when the right
 denominator is larger

Signature(1, 4) < Signature(1, 8) was True: the nominators came back swapped.
---
 src/melodia/core/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/signature.py b/src/melodia/core/signature.py
index 6514bf5..cc45f3b 100644
--- a/src/melodia/core/signature.py
+++ b/src/melodia/core/signature.py
@@ -114,7 +114,7 @@ class Signature:
         if d1 > d2:
             return n1, d1 // d2 * n2, d1
 
-        return n2, d2 // d1 * n1, d2
+        return d2 // d1 * n1, n2, d2
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From f3c42e5f0ea2f1aa98dbd7fe26db5f221b0c3dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 02/15] fix: tracks with a different number of notes are not
 equal

zip stopped at the shorter track, so a track compared equal to any of its prefixes.
---
 src/melodia/core/track.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index ddc11d6..c5b52b1 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -123,6 +123,9 @@ class Track:
         if self._signature != other._signature:
             return False
 
+        if len(self) != len(other):
+            return False
+
         for (ap, an), (bp, bn) in zip(self, other):
             if an != bn or ap != bp:
                 return False
-- 
2.43.0


From 5c91746bcd229cfab85f85fda388993584816fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 03/15] fix: rejected Track.add leaves the track unchanged

An object without duration was stored before AttributeError was raised.
---
 src/melodia/core/track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index c5b52b1..094eb03 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -105,10 +105,11 @@ class Track:
 
         position_transformed = position.to(self._max_denominator)
 
+        end_position = position_transformed + note.duration
+
         heapq.heappush(self._heap, (position_transformed, note))
         self._sorted = False
 
-        end_position = position_transformed + note.duration
         if end_position > self._max_position:
             self._max_position = end_position
 
-- 
2.43.0


From 1158cc4ca078a2a1b69c140ef59fad836b57e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 04/15] fix: concurrent readers of one track see all of its
 notes

list.sort empties the list while it runs, so a second thread iterating
(or writing) the same track could see no notes at all.
---
 src/melodia/core/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index 094eb03..e2ece0e 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -141,7 +141,7 @@ class Track:
         :return: iterator of (position, note) pairs
         """
         if not self._sorted:
-            self._heap.sort()
+            self._heap = sorted(self._heap)
             self._sorted = True
 
         return iter(self._heap)
-- 
2.43.0


From 5fdfd524589abb7f252351133f8484830a54fa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 05/15] fix: Tone.from_notation rejects trailing characters

'C4#' or 'C4 xyz' silently parsed as C4.
---
 src/melodia/core/tone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/tone.py b/src/melodia/core/tone.py
index 72acf12..7380831 100644
--- a/src/melodia/core/tone.py
+++ b/src/melodia/core/tone.py
@@ -95,7 +95,7 @@ class Tone:
         :param notation: notation string
         :return: Tone with pitch derived from notation
         """
-        match = _notation_regex.match(notation)
+        match = _notation_regex.fullmatch(notation)
 
         if match is None:
             raise ValueError('Invalid notation')
-- 
2.43.0


From 17dd63121881f706e5ba9112c69b2cc85f42697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 06/15] fix: read all four bytes of the MIDI chunk length

Chunks of 16 MiB and more were cut to their length modulo 2^24.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 6724f81..c97b7a6 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -394,7 +394,7 @@ class MIDIReader:
             if len(chunk_header) < 8:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk header')
             chunk_name = chunk_header[:4]
-            chunk_size = int.from_bytes(chunk_header[5:], 'big')
+            chunk_size = int.from_bytes(chunk_header[4:], 'big')
             chunk_body = file.read(chunk_size)
             if len(chunk_body) < chunk_size:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk body')
-- 
2.43.0


From 78e1b3bc592d82a83378f27524a0f0cd4f78a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 07/15] fix: skip system exclusive events when reading MIDI

The end marker was compared as bytes with an int, so any file with a
system exclusive event failed with unexpected end of data.
---
 src/melodia/io/midi.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index c97b7a6..685c200 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -508,11 +508,9 @@ class MIDIReader:
                         return _EventNoteOFF(channel=channel, pitch=pitch, velocity=velocity)
 
                     return _EventNoteON(channel=channel, pitch=pitch, velocity=velocity)
-                elif status == 0xF0:
-                    # System exclusive
-                    value = 0
-                    while value != 0xF7:
-                        value = data.read(1)
+                elif status in (0xF0, 0xF7):
+                    # System exclusive (length-prefixed in MIDI files)
+                    data.read(MIDIReader._read_var_len(data))
                     return _EventUnsupported()
                 else:
                     length = _event_lengths[status]
-- 
2.43.0


From 6033664d550a856428d3324fb2d0dd7769bc76fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 08/15] fix: report running status without a channel event as
 MIDIParsingError

A track starting with a data byte ended in RecursionError.
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 685c200..3ee221d 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -521,6 +521,8 @@ class MIDIReader:
                     return _EventUnsupported()
             else:
                 # Running status
+                if previous_status is None or previous_status >= 0xF0:
+                    raise MIDIParsingError('Invalid MIDI file: running status without channel event')
                 data.shift(-1)
                 return read_event(status=previous_status)
 
-- 
2.43.0


From 34573a34e7088f4eed09242eeccc11f6f8166788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 09/15] fix: report zero division in the MIDI header as
 MIDIParsingError

It surfaced as AssertionError once a note was read.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 3ee221d..0f7cb5f 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -623,7 +623,7 @@ class MIDIReader:
                     raise MIDIParsingError(f'Unsupported MIDI file: format is {kind}')
                 if n_tracks != 1:
                     raise MIDIParsingError('Invalid MIDI file: multiple tracks in a single track file')
-                if division > 0x7FFF:
+                if division == 0 or division > 0x7FFF:
                     raise MIDIParsingError('Unsupported MIDI file: unsupported division')
                 ticks_per_quarter = division
             if chunk_kind == b'MTrk':
-- 
2.43.0


From 81701aa5938b12ff958a9ba29c53c425a65d124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 10/15] fix: write MIDI clocks per metronome click in the time
 signature

The field took pulses_per_quarter, which does not fit in a byte above 255,
so dump failed with OverflowError for resolutions the constructor accepts.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 0f7cb5f..fd66cd2 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -216,7 +216,7 @@ class MIDIWriter:
 
         delta_events: List[Tuple[int, bytes]] = [
             # Time signature
-            (0, self._format_signature(track.signature, cc=self._pulses_per_quarter, bb=8)),
+            (0, self._format_signature(track.signature, cc=24, bb=8)),
             # Tempo
             (0, self._format_tempo(int(60000000 / self._bpm)))
         ]
-- 
2.43.0


From c9a2955cdba7defbe40515d41084499c016a68c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 11/15] fix: reading and writing a MIDI file again does not
 move its events

Times were rounded down both by the reader and by the writer, so events off
the binary grid (1/256 at 96 pulses, triplets) moved back on each pass.
---
 src/melodia/io/midi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index fd66cd2..26ef675 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -411,7 +411,9 @@ class MIDIReader:
     def _time_to_signature(time: int, ticks_per_quarter: int) -> Signature:
         assert ticks_per_quarter > 0, 'ticks_per_quarter must be positive'
 
-        return Signature(time * 4096 // ticks_per_quarter, 4 * 4096).normalized()
+        # Rounded up, because the writer rounds down: otherwise events would move
+        # one pulse back each time the file is read and written again
+        return Signature(-(-time * 4096 // ticks_per_quarter), 4 * 4096).normalized()
 
     def _pitch_to_tone(self, pitch: int) -> Tone:
         return Tone(pitch - self._middle_c_delta)
-- 
2.43.0


From a54eba9d072435562d495dc342ce60a0bcad7c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 12/15] fix: reject note pitches above 127 when reading MIDI

They produced notes which the writer can not write.
---
 src/melodia/io/midi.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 26ef675..7681fa2 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -435,6 +435,15 @@ class MIDIReader:
 
         return result
 
+    @staticmethod
+    def _read_7(data: _Reader) -> int:
+        value = int.from_bytes(data.read(1), 'big')
+
+        if value > 0x7F:
+            raise MIDIParsingError(f'Invalid MIDI file: data byte {value} is out of range')
+
+        return value
+
     @staticmethod
     def _read_8(data: _Reader) -> int:
         return int.from_bytes(data.read(1), 'big')
@@ -499,11 +508,11 @@ class MIDIReader:
                 kind = status >> 4
                 channel = status & 0xF
                 if kind == 8:
-                    pitch = MIDIReader._read_8(data)
+                    pitch = MIDIReader._read_7(data)
                     velocity = MIDIReader._read_8(data)
                     return _EventNoteOFF(channel=channel, pitch=pitch, velocity=velocity)
                 elif kind == 9:
-                    pitch = MIDIReader._read_8(data)
+                    pitch = MIDIReader._read_7(data)
                     velocity = MIDIReader._read_8(data)
 
                     if velocity == 0:
-- 
2.43.0


From 22bbcb0dbcb6aa965c567bc1b85e6c9725123abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 13/15] fix: refuse time deltas which do not fit in MIDI
 variable length quantity

More than four bytes were written, which is not a valid MIDI file.
---
 src/melodia/io/midi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 7681fa2..a8ddfd6 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -223,7 +223,12 @@ class MIDIWriter:
 
         last_absolute_time = 0
         for absolute_time, note_event in absolute_note_events:
-            delta_events.append((absolute_time - last_absolute_time, note_event))
+            delta_time = absolute_time - last_absolute_time
+
+            if delta_time > 0x0FFFFFFF:
+                raise ValueError('time between two events is too long to be written to midi file')
+
+            delta_events.append((delta_time, note_event))
             last_absolute_time = absolute_time
 
         # End of track
-- 
2.43.0


From 28cf1124e103e7e193a35965028e6952965c021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:09 +0000
Subject: [PATCH 14/15] fix: refuse variable length quantities longer than 4
 bytes when reading MIDI

The specification allows four bytes. The reader accepted any number of
them in quadratic time, so that a small damaged file could keep it busy
for hours.
---
 src/melodia/io/midi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index a8ddfd6..4d044df 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -432,13 +432,13 @@ class MIDIReader:
 
         result &= 0x7F
 
-        while True:
+        for _ in range(3):
             value = int.from_bytes(data.read(1), 'big')
             result = (result << 7) + (value & 0x7F)
             if value & 0x80 == 0:
-                break
+                return result
 
-        return result
+        raise MIDIParsingError('Invalid MIDI file: variable length quantity is longer than 4 bytes')
 
     @staticmethod
     def _read_7(data: _Reader) -> int:
-- 
2.43.0


From 05e98fb2e4d32ceb2ffd2cac8c0876d33c7293aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:58 +0000
Subject: [PATCH 15/15] fix: rejected Track.add does not change how positions
 are represented

The positions were converted to the denominator of the new position before
the addition was refused, which showed in repr.
---
 src/melodia/core/track.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index e2ece0e..729f50d 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -99,14 +99,14 @@ class Track:
 
         note: Note = what
 
+        position_transformed = position.to(max(position.denominator, self._max_denominator))
+
+        end_position = position_transformed + note.duration
+
         if position.denominator > self._max_denominator:
             self._max_denominator = position.denominator
             self._heap = [(s.to(self._max_denominator), n) for s, n in self._heap]
 
-        position_transformed = position.to(self._max_denominator)
-
-        end_position = position_transformed + note.duration
-
         heapq.heappush(self._heap, (position_transformed, note))
         self._sorted = False
 
-- 
2.43.0

