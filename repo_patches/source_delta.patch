From c315ec206f36c8dbcdf80c8f6a1cd410903f5b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:00 +0000
Subject: [PATCH 01/41] fix: time a new RFID transaction by its own duration
 and reply start

finish_transaction() scheduled the end of the next transaction with the
duration of the one that had just finished, and its response start in the
past (the model clock went back).
---
 pysim/models/rfid/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 9a71e4a..c20ef94 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -307,8 +307,9 @@ def finish_transaction(kernel, transaction):
 
     # Processing new command (reader frame)
     ctx.transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
-    ctx.transaction.timeout_event_id = kernel.schedule(
-        transaction.duration, finish_transaction, (ctx.transaction, )
+    transaction = ctx.transaction
+    transaction.timeout_event_id = kernel.schedule(
+        transaction.duration, finish_transaction, (transaction, )
     )
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-- 
2.43.0


From 5673be2ff209b11d397ab2fe0acbdcb076261a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:00 +0000
Subject: [PATCH 02/41] fix: cancel the pending response start when the reader
 is turned off

The id of the response-start event was never stored, so turning the reader
off could not cancel it.
---
 pysim/models/rfid/handlers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index c20ef94..dac0cd1 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -100,7 +100,9 @@ def turn_reader_on(kernel, reader):
         transaction.duration, finish_transaction, (transaction, ))
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, )
+        )
 
     # Scheduling turning off
     power_mode = reader.power_control_mode
@@ -313,7 +315,9 @@ def finish_transaction(kernel, transaction):
     )
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, )
+        )
 
 
 def switch_reader_antenna(kernel, reader):
-- 
2.43.0


From 8f35431d485f65b6041ef42d965b30db48087f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:00 +0000
Subject: [PATCH 03/41] fix: a tag reply starts T1 after the end of the
 command, not after its start

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 59cdb1f..445dfa5 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1578,7 +1578,7 @@ class Transaction():
             t4 = std.link_t4(reader.rtcal)
             exchange_duration = (self._command_duration + t1 +
                                  self._reply_duration + t2)
-            self._reply_start_time = time + t1
+            self._reply_start_time = self._command_end_time + t1
             self._reply_end_time = (
                 self._reply_start_time + self._reply_duration
             )
-- 
2.43.0


From b365d7c3eb692c8942c75bee0eb9e95d47c28b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:00 +0000
Subject: [PATCH 04/41] fix: a tag may leave the model in the middle of its own
 slot

Removing a tag while it was replying (or before the end of the slot it was
read in) crashed the simulation, and its open read record was lost.
---
 pysim/models/rfid/handlers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index dac0cd1..8629270 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -168,7 +168,8 @@ def remove_tag(kernel, tag):
     if (ctx.max_tags_num is not None and
             ctx.num_tags_simulated >= ctx.max_tags_num):
         kernel.stop()
-    # Closing statistics record
+    # Closing statistics record (and the read record, if it is still open)
+    ctx.statistics.get_tag_record(tag).close_tag_read_record()
     ctx.statistics.close_tag_record(tag)
 
 
@@ -226,7 +227,9 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
 
         # noinspection PyShadowingNames
         def on_slot_end(round_index, slot_index, reader, tag, statistics):
-            statistics.get_tag_record(tag).close_tag_read_record()
+            tag_record = statistics.get_tag_record(tag)
+            if tag_record is not None:
+                tag_record.close_tag_read_record()
             reader.slot_finish_listeners.remove(
                 statistics.slot_end_listener_id)
 
@@ -298,6 +301,10 @@ def finish_transaction(kernel, transaction):
     tag, frame, snr, ber = transaction.received_tag_frame(
         ctx.medium, kernel.time)
 
+    if frame is not None and tag not in ctx.tags:
+        # Метка покинула модель, не успев ответить: ответ не получен
+        frame = None
+
     if frame is not None:
         # Если есть один ответ от метки
         cmd_frame = _one_tag_response(
-- 
2.43.0


From e640e3f32d49ec61ef6cb0f86bfe59125f7fe830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:00 +0000
Subject: [PATCH 05/41] fix: only Query starts with a full preamble, other
 commands with a frame-sync

The reader put the TRcal symbol before every command, so transactions did
not last as long as the reader's own timeouts assume.
---
 pysim/models/rfid/objects.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 445dfa5..8f6a6ce 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -291,7 +291,7 @@ class _ReaderQREP(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryRep(reader.session)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -336,7 +336,7 @@ class _ReaderAdjust(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryAdjust(reader.session, reader.updn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None  # Reader is already ON
@@ -380,7 +380,7 @@ class _ReaderACK(_ReaderState):
 
     def enter(self, reader):
         cmd = std.Ack(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None
@@ -426,7 +426,7 @@ class _ReaderREQRN(_ReaderState):
 
     def enter(self, reader):
         cmd = std.ReqRN(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -470,7 +470,7 @@ class _ReaderREAD(_ReaderState):
     def enter(self, reader):
         cmd = std.Read(std.MemoryBank.TID, 0x00, reader.read_tid_words_num,
                        reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
-- 
2.43.0


From 767dbb2f0c17e0b966b06f41fdf64eb7ca117f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:00 +0000
Subject: [PATCH 06/41] fix: switch the target every rounds_per_target rounds

Every target but the first one was used for one round too many.
---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 8f6a6ce..c5530fe 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -240,7 +240,7 @@ class _ReaderQUERY(_ReaderState):
             if reader.num_rounds_before_target_switch <= 0:
                 reader.target = reader.target.invert()
                 reader.num_rounds_before_target_switch = \
-                    reader.rounds_per_target
+                    reader.rounds_per_target - 1
             else:
                 reader.num_rounds_before_target_switch -= 1
 
-- 
2.43.0


From b9a113b72797933e5bbba894936ff78287f54cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:00 +0000
Subject: [PATCH 07/41] fix: wait for replies to the QueryAdjust that was
 really sent

UpDn was reset before the no-reply timeout of the command was computed.
---
 pysim/models/rfid/handlers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 8629270..69830fe 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -204,7 +204,6 @@ def _no_tag_response(kernel, ctx, reader):
                 # Отправить команду QueryAdjust
                 reader.updn = -1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
@@ -280,7 +279,6 @@ def _multiple_tag_response(kernel, ctx, reader, transaction):
                 # Отправить команду QueryAdjust
                 reader.updn = 1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
-- 
2.43.0


From 19e895830334e4cbe72baf877a007476e2e8c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:00 +0000
Subject: [PATCH 08/41] fix: query_adjust_duration passed the delimiter as
 TRcal

---
 pysim/models/rfid/epcstd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 2738602..9a3af57 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -884,8 +884,10 @@ def query_rep_duration(tari=None, rtcal=None, trcal=None, delim=None,
 def query_adjust_duration(
     delim=None, tari=None, rtcal=None, session=None, updn=None
 ):
-    return reader_frame_duration(QueryAdjust(session, updn), tari, rtcal,
-                                 delim)
+    return reader_frame_duration(
+        QueryAdjust(session, updn if updn is not None else 0),
+        tari, rtcal, delim=delim
+    )
 
 
 # noinspection PyTypeChecker
-- 
2.43.0


From 27d1d7a6b342c4e5f26b9ee84957f64b9b89fb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:00 +0000
Subject: [PATCH 09/41] fix: a tag must keep Q within 0..15 on QueryAdjust

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index c5530fe..b54f855 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1203,7 +1203,7 @@ class Tag:
             )
             self._set_state(Tag.State.ARBITRATE)
             updn = qadjust.updn
-            if self.q + updn >= 0 or self.q + updn <= 15:
+            if 0 <= self.q + updn <= 15:
                 self.q = self.q + updn
                 self._slot_counter = np.random.randint(0, pow(2, self.q))
                 stat = self.kernel.context.statistics
-- 
2.43.0


From d30ab34a7c3a05a0552bce06023a474c8cfc62a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:00 +0000
Subject: [PATCH 10/41] fix: a tag must read memory from the requested word
 pointer

---
 pysim/models/rfid/objects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index b54f855..f4cacd4 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1267,9 +1267,9 @@ class Tag:
             # В команде указывается число слов (по два байта), а в content
             # лежит hex-строка, в которой каждый байт кодируется двумя
             # символами. Поэтому надо извлечь (word_count * 4) 16-ричных
-            # цифр из строки content.
-            if (frame.command.word_count * 4) < len(content):
-                content = content[:frame.command.word_count * 4]
+            # цифр из строки content, начиная со слова word_ptr.
+            start = frame.command.word_ptr * 4
+            content = content[start:start + frame.command.word_count * 4]
             # print(f'Content ({len(content) // 4} words): {content}')
             return std.TagFrame(
                 self._preamble, std.ReadReply(content, rn=self.rn))
-- 
2.43.0


From eed6c5b5517c9ce700b9d8848a2a67e6a4a04ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:36 +0000
Subject: [PATCH 11/41] fix: to_bytes crashed on byte collections
 (collections.Iterable is gone)

---
 pysim/models/rfid/epcstd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 9a3af57..0a63ad5 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -1,6 +1,6 @@
 from enum import Enum
 import random
-import collections
+import collections.abc
 import numpy as np
 
 
@@ -545,7 +545,7 @@ class QueryReply(Reply):
 def to_bytes(value):
     if isinstance(value, str):
         return list(bytearray.fromhex(value))
-    elif isinstance(value, collections.Iterable):
+    elif isinstance(value, collections.abc.Iterable):
         value = list(value)
         for b in value:
             if not isinstance(b, int) or not (0 <= b < 256):
-- 
2.43.0


From 589c07b2f617ead77ee6ba9024af59368afe0ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:36 +0000
Subject: [PATCH 12/41] fix: give every generated tag its own EPC and TID

The suffixes were reset to zero on every call, so all tags were equal.
---
 pysim/models/rfid/objects.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index f4cacd4..5f0f8ab 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1355,6 +1355,8 @@ class Generator:
 
     def __init__(self):
         self._next_interval = (lambda: 1.0,)
+        self._epc_suffix = None
+        self._tid_suffix = None
 
     def set_interval(self, fn, *args):
         self._next_interval = (fn,) + args
@@ -1380,8 +1382,10 @@ class Generator:
         tid_suffix_bitlen = (
             self.tid_bitlen - hex_string_bitlen(self.tid_prefix)
         )
-        self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
-        self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
+        if self._epc_suffix is None:
+            self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
+        if self._tid_suffix is None:
+            self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
 
         tag_id = next(model.next_tag_id)
         tag = Tag(tag_id)
-- 
2.43.0


From 932205b8b217fd6f2f9febfd65f8e81d485a1b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:36 +0000
Subject: [PATCH 13/41] fix: apply the configured session flag persistence to
 tags

---
 pysim/models/rfid/configurator.py | 3 +++
 pysim/models/rfid/objects.py      | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 26e287f..0c52767 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -324,6 +324,9 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
     generator.antenna_gain = settings.tag_antenna_gain
     generator.modulation_loss = settings.tag_modulation_loss
     generator.sensitivity = settings.tag_sensitivity
+    generator.s1_persistence = settings.s1_persistence
+    generator.s2_persistence = settings.s2_persistence
+    generator.s3_persistence = settings.s3_persistence
 
     generator.set_interval(
         settings.generation_interval[0],
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 5f0f8ab..1624a72 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1353,6 +1353,11 @@ class Generator:
     modulation_loss = -12.0  # dBm
     sensitivity = -18.0  # dBm
 
+    # Inventoried flags persistence
+    s1_persistence = 2.0  # sec.
+    s2_persistence = 2.0  # sec.
+    s3_persistence = 2.0  # sec.
+
     def __init__(self):
         self._next_interval = (lambda: 1.0,)
         self._epc_suffix = None
@@ -1403,6 +1408,9 @@ class Generator:
         tag.antenna.cable_loss = self.cable_loss
         tag.sensitivity = self.sensitivity
         tag.modulation_loss = self.modulation_loss
+        tag.s1_persistence = self.s1_persistence
+        tag.s2_persistence = self.s2_persistence
+        tag.s3_persistence = self.s3_persistence
         return tag
 
 
-- 
2.43.0


From 6ae39882143d94b9713006e65c6e6a68152bdc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:36 +0000
Subject: [PATCH 14/41] fix: estimate BER with the configured distribution

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 1624a72..78fe462 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1535,7 +1535,7 @@ class Medium:
         return snr
 
     def estimate_reader_rx_ber(self, reader, tag, tags, snr):
-        return chan.ber(snr)
+        return chan.ber(snr, distr=self.ber_distribution)
 
 
 #############################################################################
-- 
2.43.0


From 106b44fc02beced3e2b33b79d75cbff33264833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:36 +0000
Subject: [PATCH 15/41] fix: start the fractional Q estimate from the
 configured Q

Settings(q=...) left q_fp at the default Q.
---
 pysim/models/rfid/configurator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 0c52767..f78cc62 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -133,7 +133,7 @@ class Settings:
     # (если есть значение по умолчанию в click, то не используется)
     # коэффициент, на который изменяется значение q
     adjust_delta: float = 0.1
-    q_fp: float = q
+    q_fp: float | None = None  # если None, то равно q
 
     # Значение поля Target команды Query, то есть флаг сессии, по которому
     # идет опрос меток. Ответ будут передавать только те метки, которые хранят
@@ -279,7 +279,9 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
         'useadjust', settings.use_query_adjust
     )
     reader.adjust_delta = kwargs.get('delta', settings.adjust_delta)
-    reader.q_fp = settings.q_fp
+    reader.q_fp = (
+        settings.q_fp if settings.q_fp is not None else settings.q
+    )
     print(reader.use_query_adjust)
 
     # 2) Attaching antennas to reader
-- 
2.43.0


From f53e162f45692d6dae8dfa5d90f566415e73ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:36 +0000
Subject: [PATCH 16/41] fix: pass QueryAdjust settings to parallel RFID
 simulations

Every run with a multiple-valued option died with KeyError.
---
 pysim/models/rfid/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/rfid/cli.py b/pysim/models/rfid/cli.py
index 5d45aab..c3553ca 100644
--- a/pysim/models/rfid/cli.py
+++ b/pysim/models/rfid/cli.py
@@ -144,6 +144,8 @@ def prepare_multiple_simulation(variadic, **kwargs):
         'power': kwargs['power'],
         'num_tags': kwargs['num_tags'],
         'verbose': False,
+        'useadjust': kwargs['useadjust'],
+        'delta': kwargs['delta'],
     } for _ in enumerate(variadic_values)]
 
     # Теперь заменим значения варьируемого аргумента, чтобы в каждом
-- 
2.43.0


From d4c08881b4874b28b2029c59687f3df4a195104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:36 +0000
Subject: [PATCH 17/41] fix: plot the results of any multiple RFID run

There was no unit for tag_offset, and the results directory may not exist.
---
 pysim/models/rfid/processing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/processing.py b/pysim/models/rfid/processing.py
index b05d60b..e100d74 100644
--- a/pysim/models/rfid/processing.py
+++ b/pysim/models/rfid/processing.py
@@ -1,5 +1,6 @@
 import json
 import matplotlib.pyplot as plt
+import os
 from tabulate import tabulate
 import time
 
@@ -82,6 +83,7 @@ def save_mult_results_to_file(initial_data, results, variadic):
     filename = 'results/text/' + 'sim_res-' + current_time + '.txt'
     ret, time_list = separate_res(results)
     results_dict = results_to_dict(ret)
+    os.makedirs(os.path.dirname(filename), exist_ok=True)
     with open(filename, 'w') as f:
         f.write('Входные параметры: ' + json.dumps(initial_data) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(results_dict))
@@ -91,7 +93,8 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     results_dict = results_to_dict(ret)
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/plots/' + current_time + '-' + variadic + '.png'
-    units = {'speed': 'km/h', 'reader_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words'}
+    units = {'speed': 'km/h', 'reader_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words',
+             'tag_offset': 'm'}
     
     fig, ax = plt.subplots(figsize=(14, 8), layout='constrained')
     ax.plot(
@@ -106,4 +109,5 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     ax.tick_params(axis='both', which='major', labelsize=31)
     ax.grid()
     if save_fig:
+        os.makedirs(os.path.dirname(filename), exist_ok=True)
         fig.savefig(filename)
\ No newline at end of file
-- 
2.43.0


From 93140c5cee490f457f2a7d76e16974f45db9ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:36 +0000
Subject: [PATCH 18/41] fix: reject invalid events when they are scheduled, as
 documented

---
 pysim/sim/simulator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index a7da8a3..9591bb7 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -337,7 +337,15 @@ class Kernel:
             msg: str = ''
     ) -> EventId:
         '''Планирование нового события'''
+        if handler is None:
+            raise ValueError("обработчик события не задан")
+        if not callable(handler):
+            raise TypeError("обработчик события должен быть вызываемым")
+        if not isinstance(args, Iterable):
+            raise TypeError("аргументы обработчика должны быть Iterable")
         if delay is not None:
+            if delay < 0:
+                raise SchedulingInPastError(f"delay = {delay} < 0")
             return self._queue.push(self._sim_time + delay, (handler, args, msg))
         return None
 
-- 
2.43.0


From d611fb5d25b860b5f89080ec4b00f9adb6fb318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:36 +0000
Subject: [PATCH 19/41] fix: stop after max_num_events events

The limit was accepted and never enforced.
---
 pysim/sim/simulator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 9591bb7..c912844 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -27,6 +27,7 @@ class ExitReason(Enum):
     REACHED_SIM_TIME_LIMIT = 2
     STOPPED = 3
     INTERRUPTED = 4  # выполнение не закончилось - прерывание при отладке
+    REACHED_NUM_EVENTS_LIMIT = 5
 
 
 @dataclass
@@ -370,6 +371,10 @@ class Kernel:
         elif self._max_real_time is not None and self.real_time_elapsed > self._max_real_time:
             self.stop_reason = ExitReason.REACHED_REAL_TIME_LIMIT
             return True
+        elif (self._max_num_events is not None and
+                self._num_events_served >= self._max_num_events):
+            self.stop_reason = ExitReason.REACHED_NUM_EVENTS_LIMIT
+            return True
         elif self._user_stop:
             return True
 
-- 
2.43.0


From 527090f7a9687a1211df64a9f78c49800df789b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:36 +0000
Subject: [PATCH 20/41] fix: report NO_MORE_EVENTS when the run ends with an
 empty queue

The exit reason was None unless the queue was empty from the beginning, and
a stop requested by an initialiser that scheduled nothing was lost.
---
 pysim/sim/simulator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index c912844..2ce9d9e 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -442,9 +442,6 @@ class Kernel:
         # 3) Инициализация модели
         self._initializer(sim, *self._initializer_args)
 
-        if self._queue.empty:
-            self.stop_reason = ExitReason.NO_MORE_EVENTS
-
         while not self._queue.empty and not self.stop_conditions():
             t, event_id, item = self._queue.pop()
             self._sim_time = t
@@ -452,6 +449,11 @@ class Kernel:
             handler(sim, *args)
             self._num_events_served += 1
             self.lhandler = handler
+
+        if self.stop_reason is None:
+            # Ни одно из условий остановки не сработало
+            self.stop_reason = ExitReason.NO_MORE_EVENTS
+
         if self._finalize:
             fin_ret = self._finalize(sim)
         else:
-- 
2.43.0


From c7695bbb83669824a871f83c6683f5df49ce7777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:36 +0000
Subject: [PATCH 21/41] fix: do not list cancelled events among the future ones

---
 pysim/sim/simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 2ce9d9e..625c10a 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -264,7 +264,8 @@ class EventQueue:
         return len(self._event_dict) == 0
 
     def to_list(self):
-        return list(self._event_list)
+        return [event for event in self._event_list
+                if event[1] in self._event_dict]
 
 
 class Kernel:
-- 
2.43.0


From 4964f595c0e3de3760b62eaf52ad07c537a4405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:00 +0000
Subject: [PATCH 22/41] fix: use the configured separator in log file names

---
 pysim/sim/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index af5e50e..1068f3d 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -200,7 +200,8 @@ class ModelLogger:
             else:
                 file_name = ModelLogger.build_file_name(
                     config.file_name, 
-                    self._run_id
+                    self._run_id,
+                    config.file_name_sep
                 )
             
             # Каждый запуск создает отдельный файл, поэтому режим = 'w'
-- 
2.43.0


From 8098196c082d54dbd8755e83e51bca87c06c5609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:00 +0000
Subject: [PATCH 23/41] fix: the coloured console crashed on non-standard log
 levels

---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 1068f3d..b6a3bcc 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -42,7 +42,9 @@ class ColoredFormatter(logging.Formatter):
         }
 
     def format(self, record):
-        log_fmt: logging.Formatter = self.FORMATS[record.levelno]
+        log_fmt = self.FORMATS.get(record.levelno)
+        if log_fmt is None:  # нестандартный уровень - без цвета
+            return super().format(record)
         return log_fmt.format(record)
 
 
-- 
2.43.0


From ecbebc9a6d63717be6101c70bdfb04277f99e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:00 +0000
Subject: [PATCH 24/41] fix: count every unanswered ping as missed

The acknowledgement flag was never reset, so nothing was counted after the
first pong, while the first timeout counted a ping that was not sent yet.
---
 pysim/models/pingpong/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index aac84bb..61b7da5 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -98,8 +98,9 @@ class Client(Node):
         assert self.channel is not None
         assert self.server is not None
 
-        if not self.was_acknowledged:
+        if self.num_pings_sent > 0 and not self.was_acknowledged:
             self.num_missed += 1
+        self.was_acknowledged = False
         self.number += 1
         if self.max_pings is None or self.num_pings_sent < self.max_pings:
             sim.logger.debug("client timeout, sending ping #%d", self.number)
-- 
2.43.0


From 4e98a8c49650a3f88f92e3365aaa92c1fa3482cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:00 +0000
Subject: [PATCH 25/41] fix: miss_rate is the share of missed pongs, not of
 received ones

---
 pysim/models/pingpong/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/pingpong/handlers.py b/pysim/models/pingpong/handlers.py
index 1b1b3c9..37ffc98 100755
--- a/pysim/models/pingpong/handlers.py
+++ b/pysim/models/pingpong/handlers.py
@@ -21,6 +21,6 @@ def finalize(sim: Simulator) -> Result:
         avg_interval=statistics.mean(model.client.intervals_list),
         avg_delay=statistics.mean(model.channel.delays_list),
         miss_rate=(
-            model.client.num_acknowledged / model.client.num_pings_sent
+            model.client.num_missed / model.client.num_pings_sent
         ),
     )
-- 
2.43.0


From 9fa8ca4ef15aac3bd8e0f80d3c3259008abf8d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:00 +0000
Subject: [PATCH 26/41] fix: account for the interval before the ping that
 follows a loss

With loss_prob = 1 there were no intervals at all, and finalize() crashed.
---
 pysim/models/pingpong/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index 61b7da5..b866d97 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -176,6 +176,9 @@ class Server(Node):
                 sim.context.client.interval,
                 sim.context.client.handle_timeout
             )
+            sim.context.client.intervals_list.append(
+                sim.context.client.interval
+            )
 
     def handle_service_end(self, sim: Simulator, ping: Packet) -> None:
         """
-- 
2.43.0


From a76c871e86b74956a9ca4827f0d574cadeab9d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:00 +0000
Subject: [PATCH 27/41] fix: print pingpong parameters in the order of the
 results

---
 pysim/models/pingpong/processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/pingpong/processing.py b/pysim/models/pingpong/processing.py
index 47ebaff..f35ebd5 100644
--- a/pysim/models/pingpong/processing.py
+++ b/pysim/models/pingpong/processing.py
@@ -56,6 +56,8 @@ def result_processing(initial_data, results, variadic, save_results=False):
         'miss_rate': []
         }
     if isinstance(results, list):
+        # Результаты посчитаны для отсортированных значений без повторов
+        initial_data[variadic] = sorted(set(initial_data[variadic]))
         for i in range(len(results)):
             res['avg_interval'].append(results[i].avg_interval),
             res['avg_delay'].append(results[i].avg_delay),
-- 
2.43.0


From 759fbe851f32ad848c281164a4d941fda69baa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:00 +0000
Subject: [PATCH 28/41] fix: expected time of the second scenario for small
 probabilities

The series was cut at 1000 terms, far too early for p < 0.01.
---
 pysim/models/tag_time/analitical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index f8cd192..adae3e9 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -51,8 +51,8 @@ def calculate_second_case(phases):
     '''
     res = 0
     for phase in phases:
-        for n in range(1000):
-            res += (n + 1) * phase[1] * phase[0] * ((1 - phase[0]) ** n)
+        # Среднее число попыток до успеха равно 1 / p
+        res += phase[1] / phase[0] if phase[0] > 0 else np.inf
     return res
 
 
-- 
2.43.0


From f6a5f188a51b781fdee46aa204b8b659e72f5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:00 +0000
Subject: [PATCH 29/41] fix: the third analytical case took the second chunk
 (crash with one chunk)

---
 pysim/models/tag_time/analitical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index adae3e9..fab0d0f 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -95,7 +95,7 @@ def run_analitica(script_number, all_phases, chunks_number):
         for i in range(len(all_phases)):
             analit_res.append(
                 calculate_third_case(
-                    all_phases[i][0:3], all_phases[i][4], chunks_number
+                    all_phases[i][0:3], all_phases[i][3], chunks_number
                 )*1_000
             )
     return analit_res
-- 
2.43.0


From ca5c220452626679bbf74717f9b764b3a992be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:00 +0000
Subject: [PATCH 30/41] fix: state times must use the link timings of the
 chosen divide ratio

---
 pysim/models/tag_time/calculate_params.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysim/models/tag_time/calculate_params.py b/pysim/models/tag_time/calculate_params.py
index fa8f5b0..7a98123 100644
--- a/pysim/models/tag_time/calculate_params.py
+++ b/pysim/models/tag_time/calculate_params.py
@@ -218,8 +218,10 @@ def prepare_probs(params, chunks_number, ber, points_number):
 
 
 def prepare_times(params, probs, chunks_number):
-    T1 = p.link_t1_max(rtcal=params['rtcal'], trcal=params['trcal'], dr=None)
-    T2 = p.link_t2_max(trcal=params['trcal'], dr=None)
+    T1 = p.link_t1_max(
+        rtcal=params['rtcal'], trcal=params['trcal'], dr=params['DR']
+    )
+    T2 = p.link_t2_max(trcal=params['trcal'], dr=params['DR'])
     T1_2 = T1 + T2
     delta = 1e-5
 
-- 
2.43.0


From 2bd553a29cac7f73c1a724829a6da46f3e073564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:38 +0000
Subject: [PATCH 31/41] fix: expected time of the first scenario for small
 probabilities

The 4x4 matrix inversion lost all digits (even the sign) once the product of
the success probabilities dropped below machine precision.
---
 pysim/models/tag_time/analitical_model.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index fab0d0f..e04a78d 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -27,17 +27,14 @@ def calculate_first_case(phases):
     где p - вероятность передачи,
     t - время нахождения в состоянии;
     '''
-    times = [phase[1] for phase in phases]
-    probs = [phase[0] for phase in phases]
-
-    matrix = np.array([
-        [probs[0],     -probs[0], 0,         0],
-        [probs[1] - 1, 1,         -probs[1], 0],
-        [probs[2] - 1, 0,         1,         -probs[2]],
-        [probs[3] - 1, 0,         0,         1]
-    ])
-
-    return np.dot(np.linalg.inv(matrix)[0], np.array(times))
+    # Из состояния i при неудаче метка начинает сначала, поэтому в среднем
+    # оно посещается 1 / (p_i * p_{i+1} * ... * p_n) раз до поглощения
+    # (обращение матрицы переходов при малых p численно неустойчиво)
+    res, success = 0, 1
+    for p, t in reversed(phases):
+        success *= p
+        res += t / success if success > 0 else np.inf
+    return res
 
 
 def calculate_second_case(phases):
-- 
2.43.0


From 8ae84aa9e6e6c832fa1fffb19a6c7aeb15acf142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 32/41] fix: QueryAdjust announces the direction in which the
 reader's Q really moved

With a fractional estimate configured away from Q, an unanswered slot may
raise Q (and a collided one lower it); UpDn was fixed by the slot outcome,
so tags moved away from the reader's Q.
---
 pysim/models/rfid/handlers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 69830fe..6faad91 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -200,9 +200,9 @@ def _no_tag_response(kernel, ctx, reader):
                 kernel.logger.error(
                     f'Считыватель уменьшил Q с {reader.q} до {new_q}'
                 )
-                reader.q = new_q  # обновляем q в считывателе
                 # Отправить команду QueryAdjust
-                reader.updn = -1
+                reader.updn = new_q - reader.q
+                reader.q = new_q  # обновляем q в считывателе
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
@@ -275,9 +275,9 @@ def _multiple_tag_response(kernel, ctx, reader, transaction):
                 kernel.logger.error(
                     f'Считыватель увеличил Q с {reader.q} до {new_q}'
                 )
-                reader.q = new_q  # обновляем q в считывателе
                 # Отправить команду QueryAdjust
-                reader.updn = 1
+                reader.updn = new_q - reader.q
+                reader.q = new_q  # обновляем q в считывателе
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
-- 
2.43.0


From 2c5842b3c1dbfd12d0eaa14ac3440bd07fe6cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:01 +0000
Subject: [PATCH 33/41] fix: a model package whose cli.py fails to import no
 longer takes down the whole command line

Only ModuleNotFoundError was reported; any other exception raised while a
package's cli.py is imported (SyntaxError, ImportError, NameError, ...)
escaped from __initialize__(), so that 'sim list' and 'sim run' of all other
models stopped working.
---
 pysim/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/main.py b/pysim/main.py
index 4782f75..dd24d9b 100755
--- a/pysim/main.py
+++ b/pysim/main.py
@@ -71,8 +71,8 @@ def __initialize__():
                 models_list.append(name)
             else:
                 print("WARNING: cli_run() must be a Click command or group")
-        except ModuleNotFoundError:
-            print(f'В модуле {name} некорректное оформление!')
+        except Exception as error:
+            print(f'В модуле {name} некорректное оформление! ({error!r})')
 
 
 __initialize__()
-- 
2.43.0


From 441c4620247d9485ad2ee809bb468142c6b813d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 34/41] fix: no output on the console unless a console sink is
 configured

---
 pysim/sim/logger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index b6a3bcc..e57a850 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -212,6 +212,10 @@ class ModelLogger:
             f_handler.setFormatter(f_formatter)
             self._logger.addHandler(f_handler)
 
+        # Без обработчиков модуль logging сам пишет предупреждения в stderr.
+        if not self._logger.handlers:
+            self._logger.addHandler(logging.NullHandler())
+
         self._logger.propagate = False
         self._logger.setLevel(config.level)
         
-- 
2.43.0


From a803ba452d096f345f40930b06e3e3e9d2959443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 35/41] fix: a model package that exits while being imported no
 longer takes down the command line

---
 pysim/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/main.py b/pysim/main.py
index dd24d9b..3e015fb 100755
--- a/pysim/main.py
+++ b/pysim/main.py
@@ -71,7 +71,7 @@ def __initialize__():
                 models_list.append(name)
             else:
                 print("WARNING: cli_run() must be a Click command or group")
-        except Exception as error:
+        except (Exception, SystemExit) as error:
             print(f'В модуле {name} некорректное оформление! ({error!r})')
 
 
-- 
2.43.0


From 9f30d4f236cc30d2a9c25710c8d426c08890f640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 36/41] fix: tag_preamble_duration crashed when the encoding
 was left to its default

---
 pysim/models/rfid/epcstd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 0a63ad5..5bb4fc7 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -809,6 +809,7 @@ def tag_preamble_bitlen(encoding=None, trext=None):
 
 def tag_preamble_duration(blf=None, encoding=None, trext=None):
     blf = blf if blf is not None else get_blf()
+    encoding = encoding if encoding is not None else stdParams.tag_encoding
     bitlen = tag_preamble_bitlen(encoding, trext)
     return (bitlen * encoding.symbols_per_bit) / blf
 
-- 
2.43.0


From 572baa06276127c85e19d878a5fc688939ebd385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 37/41] fix: tags crashed the run when all coordinates were
 whole numbers

---
 pysim/models/rfid/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 78fe462..a1d48f9 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -974,7 +974,8 @@ class Tag:
 
     @pos.setter
     def pos(self, value):
-        self.antenna.pos = np.asarray(value)
+        # Координаты могут быть заданы целыми числами
+        self.antenna.pos = np.asarray(value, dtype=float)
 
     @property
     def encoding(self):
-- 
2.43.0


From f19516874572f8a8ec22ffd259e2ba73ded93b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 38/41] fix: the ray reflected by the wall reached the receiver
 from the wrong side

---
 pysim/models/rfid/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index aba87e3..176e9ff 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -135,7 +135,7 @@ def two_ray_pathloss(*, time, ground_reflection, wavelen,
     d0_vector_tx_n = d0_vector / d0  # LoS ray vector normalized
     d0_vector_rx_n = -d0_vector_tx_n
     d1_vector_tx_n = d1_vector / d1  # NLoS ray vector normalized
-    d1_vector_rx_n = np.array([-d1_vector_tx_n[0], -d1_vector_tx_n[1], d1_vector_tx_n[2]])
+    d1_vector_rx_n = np.array([-d1_vector_tx_n[0], d1_vector_tx_n[1], d1_vector_tx_n[2]])
 
     # Предполагается, что стена, от которой происходит отражение - это плоскость YOZ
     x_rfp = 0
-- 
2.43.0


From 5f48c3623bd495c9ad308ccc9d58cfed5cb645ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 39/41] fix: Doppler shift of the reflected ray when the
 receiver moves towards the wall

---
 pysim/models/rfid/channel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index 176e9ff..07235d3 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -160,7 +160,10 @@ def two_ray_pathloss(*, time, ground_reflection, wavelen,
 
     relative_velocity = rx_velocity - tx_velocity
     velocity_pr_0 = np.dot(d0_vector_tx_n, relative_velocity)
-    velocity_pr_1 = np.dot(d1_vector_tx_n, relative_velocity)
+    # Отражённый луч приходит в зеркальное изображение приёмника,
+    # и скорость у этого изображения тоже зеркальная
+    relative_velocity_refl = rx_velocity * np.array([-1, 1, 1]) - tx_velocity
+    velocity_pr_1 = np.dot(d1_vector_tx_n, relative_velocity_refl)
 
     # Attenuation caused by radiation pattern
     g0 = (tx_rp(azimuth=tx_azimuth_0) * rx_rp(azimuth=rx_azimuth_0))
-- 
2.43.0


From c948d97ef964f2cc853b28ce0bb7730de991120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 40/41] fix: without any signal the effective SNR was 0.5

---
 pysim/models/rfid/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index 07235d3..6930ede 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -195,7 +195,7 @@ def snr(power, noise):
 def snr_full(*, snr, miller=1, symbol=1.25e-6, preamble=9.3e-6,
              bandwidth=1.2e6, tol=1e-8, **kwargs):
     if snr < tol:
-        return 0.5
+        return 0.0
 
     # print(">>> miller={}, symbol={}, preamble={}, bandwidth={}".format(
     #     miller, symbol, preamble, bandwidth
-- 
2.43.0


From cd398861dac457c5b477d524db049a5e40928525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 41/41] fix: saving results failed where the results folder did
 not exist yet

---
 pysim/models/pingpong/processing.py | 2 ++
 pysim/models/tag_time/processing.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/pysim/models/pingpong/processing.py b/pysim/models/pingpong/processing.py
index f35ebd5..a197916 100644
--- a/pysim/models/pingpong/processing.py
+++ b/pysim/models/pingpong/processing.py
@@ -1,4 +1,5 @@
 import json
+import os
 from tabulate import tabulate
 import time
 
@@ -6,6 +7,7 @@ import time
 def save_results_to_file(initial_data, res):
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/' + 'model_res-' + current_time + '.txt'
+    os.makedirs(os.path.dirname(filename), exist_ok=True)
     with open(filename, 'w') as f:
         f.write('Входные параметры: ' + json.dumps(initial_data) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(res))
diff --git a/pysim/models/tag_time/processing.py b/pysim/models/tag_time/processing.py
index 0d7cd29..4d43391 100644
--- a/pysim/models/tag_time/processing.py
+++ b/pysim/models/tag_time/processing.py
@@ -1,5 +1,6 @@
 import json
 import matplotlib.pyplot as plt
+import os
 import time
 
 
@@ -23,6 +24,7 @@ def result_processing(kwargs, result, save_res=True, plot_res=False):
 def save_results(kwargs, res):
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/text/' + 'sim_res-' + current_time + '.txt'
+    os.makedirs(os.path.dirname(filename), exist_ok=True)
     with open(filename, 'w') as f:
         f.write('Входные параметры: ' + json.dumps(kwargs) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(res))
@@ -39,4 +41,5 @@ def plot_results(kwargs, res, save_fig=True):
         markersize=8,
     )
     if save_fig:
+        os.makedirs(os.path.dirname(filename), exist_ok=True)
         fig.savefig(filename)
-- 
2.43.0

