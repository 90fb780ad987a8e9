From b4bd8db13386edbbdeb83d93c12acc63b6e311f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:22 +0000
Subject: [PATCH 01/24] fix: RGB2RGB16f sign bit, leading-one width and zero
 pixel

---
 litevideo/csc/rgb2rgb16f.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/litevideo/csc/rgb2rgb16f.py b/litevideo/csc/rgb2rgb16f.py
index f5c3a1c..368af05 100644
--- a/litevideo/csc/rgb2rgb16f.py
+++ b/litevideo/csc/rgb2rgb16f.py
@@ -105,11 +105,13 @@ class PIX2PIXFDatapath(Module):
 
         lshift = Signal(4)
         frac_val = Signal(10)
+        zero = Signal()
 
-        self.submodules.l1 = LeadOne(12)
+        self.submodules.l1 = LeadOne(pix_w)
         self.comb += self.l1.datai.eq(sink.pix)
 
         self.sync += [
+            zero.eq(sink.pix == 0),
             lshift.eq(self.l1.leadone),
             frac_val[3:].eq(sink.pix[:7]),
             frac_val[:3].eq(0)
@@ -122,7 +124,8 @@ class PIX2PIXFDatapath(Module):
         self.sync += [
             source.pixf[:10].eq(frac_val << lshift),
             source.pixf[10:15].eq(15 - 1 - lshift),
-            source.pixf[15].eq(1)
+            source.pixf[15].eq(0),
+            If(zero, source.pixf.eq(0))
         ]
 
 class RGB2RGB16f(PipelinedActor, Module):
-- 
2.43.0


From 00e59ad1a25f0e8eb7c7db0176338258cd67c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:45 +0000
Subject: [PATCH 02/24] fix: FloatMult normalises its own product (not the next
 one) and subnormal results

---
 litevideo/float_arithmetic/floatmult.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index edd118e..ce72e94 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -137,12 +137,16 @@ class FloatMultDatapath(Module):
 
         self.sync += [
             out_status4.eq(out_status3),
-            If((out_exp3 - one_ptr) < 1,
+            If((out_exp3 - one_ptr) < 0,
                 out_exp_adjust.eq(0),
-                out_mult_shift.eq(((out_mult >> (0 - out_exp3)) << 1))
+                If(out_exp3 < 0,
+                    out_mult_shift.eq(((out_mult3 >> (0 - out_exp3)) << 1))
+                ).Else(
+                    out_mult_shift.eq(out_mult3 << out_exp3[:5] + 1)
+                )
             ).Else(
                 out_exp_adjust.eq(out_exp3 + 1 - one_ptr),
-                out_mult_shift.eq(out_mult << one_ptr + 1)
+                out_mult_shift.eq(out_mult3 << one_ptr + 1)
             )
         ]
 
-- 
2.43.0


From 73c4e9e0e75dcdfbe2254bf965c42f79e5e87cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:45 +0000
Subject: [PATCH 03/24] fix: FloatAdd aligns subnormal operands and packs
 zero/subnormal sums

---
 litevideo/float_arithmetic/floatadd.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/litevideo/float_arithmetic/floatadd.py b/litevideo/float_arithmetic/floatadd.py
index f02ffdf..3a0803b 100644
--- a/litevideo/float_arithmetic/floatadd.py
+++ b/litevideo/float_arithmetic/floatadd.py
@@ -99,7 +99,7 @@ class FloatAddDatapath(Module):
         in2_exp_stage1 = Signal(5)
 
         self.sync += [
-            in1_minus_in2_exp.eq(in1_exp1 - in2_exp),
+            in1_minus_in2_exp.eq(in1_exp1 - in2_exp1),
             in1_frac_stage1.eq(in1_mant),
             in2_frac_stage1.eq(in2_mant),
             in1_exp_stage1.eq(in1_exp1),
@@ -158,8 +158,14 @@ class FloatAddDatapath(Module):
         out_exp_stage4 = Signal(5)
         out_4 = Signal(16)
         self.sync += [
-            out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
-            out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1),
+            If((in1_plus_in2_frac == 0) | (in1_minus_in2_exp_stage3 < leadone),
+                # zero or subnormal result
+                out_frac_stage4.eq(in1_plus_in2_frac << in1_minus_in2_exp_stage3),
+                out_exp_stage4.eq(0)
+            ).Else(
+                out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
+                out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1)
+            ),
             out_sign_stage4.eq(in1_plus_in2_sign),
             out_4.eq(out_frac_stage4)
         ]
-- 
2.43.0


From eabb097ad7b54797fdcb0d609b14cbb31b099b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:47 +0000
Subject: [PATCH 04/24] fix: YCbCr422to444 forwards first and last

---
 litevideo/csc/ycbcr422to444.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/litevideo/csc/ycbcr422to444.py b/litevideo/csc/ycbcr422to444.py
index ef4286a..8019df6 100644
--- a/litevideo/csc/ycbcr422to444.py
+++ b/litevideo/csc/ycbcr422to444.py
@@ -22,7 +22,7 @@ class YCbCr422to444(Module):
 
         # # #
 
-        y_fifo = stream.SyncFIFO([("data", dw)], 4)
+        y_fifo = stream.SyncFIFO([("data", dw)], 4) # also carries first/last
         cb_fifo = stream.SyncFIFO([("data", dw)], 4)
         cr_fifo = stream.SyncFIFO([("data", dw)], 4)
         self.submodules += y_fifo, cb_fifo, cr_fifo
@@ -31,6 +31,8 @@ class YCbCr422to444(Module):
         parity_in = Signal()
         self.sync += If(sink.valid & sink.ready, parity_in.eq(~parity_in))
         self.comb += [
+            y_fifo.sink.first.eq(sink.first),
+            y_fifo.sink.last.eq(sink.last),
             If(~parity_in,
                 y_fifo.sink.valid.eq(sink.valid & sink.ready),
                 y_fifo.sink.data.eq(sink.y),
@@ -54,6 +56,8 @@ class YCbCr422to444(Module):
             source.valid.eq(y_fifo.source.valid &
                             cb_fifo.source.valid &
                             cr_fifo.source.valid),
+            source.first.eq(y_fifo.source.first),
+            source.last.eq(y_fifo.source.last),
             source.y.eq(y_fifo.source.data),
             source.cb.eq(cb_fifo.source.data),
             source.cr.eq(cr_fifo.source.data),
-- 
2.43.0


From 2b906b417090f02d309ba13cbdd26bb74da9d131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:12 +0000
Subject: [PATCH 05/24] fix: YCbCr444to422 pairs accepted pixels whatever the
 bubbles and backpressure

---
 litevideo/csc/ycbcr444to422.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/litevideo/csc/ycbcr444to422.py b/litevideo/csc/ycbcr444to422.py
index c82babe..700be81 100644
--- a/litevideo/csc/ycbcr444to422.py
+++ b/litevideo/csc/ycbcr444to422.py
@@ -22,6 +22,7 @@ class YCbCr444to422Datapath(Module):
         self.sink = sink = Record(ycbcr444_layout(dw))
         self.source = source = Record(ycbcr422_layout(dw))
         self.first = Signal()
+        self.pair = Signal()
 
         # # #
 
@@ -36,7 +37,7 @@ class YCbCr444to422Datapath(Module):
         # parity
         parity = Signal()
         self.sync += \
-            If(self.first | ~parity,
+            If(self.first | self.pair | ~parity,
                 parity.eq(1)
             ).Else(
                 parity.eq(0)
@@ -80,6 +81,18 @@ class YCbCr444to422(PipelinedActor, Module):
         self.submodules.datapath = YCbCr444to422Datapath(dw)
         PipelinedActor.__init__(self, self.datapath.latency)
         self.comb += self.datapath.ce.eq(self.pipe_ce)
+
+        # pair accepted pixels (not clock cycles) and do not let a bubble split a pair
+        odd = Signal()
+        self.sync += If(sink.valid & sink.ready, odd.eq(self.datapath.first | ~odd))
+        self.comb += [
+            self.datapath.pair.eq(sink.valid & ~odd),
+            If(odd & ~sink.valid,
+                self.pipe_ce.eq(0),
+                source.valid.eq(0)
+            )
+        ]
+
         for name in ["y", "cb", "cr"]:
             self.comb += getattr(self.datapath.sink, name).eq(getattr(sink, name))
         for name in ["y", "cb_cr"]:
-- 
2.43.0


From 2f33593aba6f3f1074dcaf0d10134f745205e7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:12 +0000
Subject: [PATCH 06/24] fix: DecodeTERC4: data enable covers exactly the pixels
 of a video period

The data enable started and ended one pixel late against the delayed pixel
data, and first pixels that look like a guard band were left out.
---
 litevideo/input/decoding.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/litevideo/input/decoding.py b/litevideo/input/decoding.py
index 6e607c3..9cca9c9 100644
--- a/litevideo/input/decoding.py
+++ b/litevideo/input/decoding.py
@@ -312,12 +312,10 @@ class DecodeTERC4(Module, AutoCSR):
                 self.encrypting_video.eq(0),
                 self.de_hdmi.eq(0)
                 )
+        # The guard band is exactly two characters: the first one got us here and the
+        # second one is in the pipe now (the first pixels may look like a guard band).
         fsm.act("GOING_VID",
-                If(all_vgb,
-                   NextState("GOING_VID")
-                ).Else(
-                    NextState("VIDEO")
-                ),
+                NextState("VIDEO"),
                 self.encoding_terc4.eq(0),
                 self.encrypting_data.eq(0),
                 self.encrypting_video.eq(0),
@@ -332,5 +330,5 @@ class DecodeTERC4(Module, AutoCSR):
                 self.encoding_terc4.eq(0),
                 self.encrypting_data.eq(0),
                 self.encrypting_video.eq(1),
-                self.de_hdmi.eq(1)
+                self.de_hdmi.eq(~any_cvalid) # low from the first control character on
                 )
-- 
2.43.0


From 98759ec579b3aa30ec86c91da4f22376b793abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:20 +0000
Subject: [PATCH 07/24] fix: FrameExtraction: do not emit a leftover partial
 word as start of frame

After an incomplete frame the next vsync pushed the unfinished word into the
FIFO marked as the first word of the new frame.
---
 litevideo/input/analysis.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 1bed19c..2d48987 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -198,7 +198,6 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
                     pack_counter.eq(0),
                 ).Elif(chroma_downsampler.source.valid & de,
                     [If(pack_counter == (pack_factor-i-1),
@@ -222,7 +221,6 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
                     pack_counter.eq(0),
                 ).Elif(self.valid_i & de,
                     [If(pack_counter == (pack_factor-i-1),
-- 
2.43.0


From 4c06cb332f0a050f95afeff6d5ce6b1a8f7ba1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:14 +0000
Subject: [PATCH 08/24] fix: capture DMA: give slot event sources distinct
 names

With two or more slots the event manager refused to build: all sources were
called ev_source.
---
 litevideo/input/dma.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 1030e4a..287902a 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -45,6 +45,7 @@ class _SlotArray(Module, AutoCSR):
         slots = [_Slot(addr_bits, alignment_bits) for i in range(nslots)]
         for n, slot in enumerate(slots):
             setattr(self.submodules, "slot"+str(n), slot)
+            slot.ev_source.name = "slot"+str(n) # names must differ for each source
             setattr(self.ev, "slot"+str(n), slot.ev_source)
         self.ev.finalize()
 
-- 
2.43.0


From e28e5de0ccebea900fa8839675644d133ce2f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:04 +0000
Subject: [PATCH 09/24] fix: capture DMA: keep the slot being filled selected
 until its transfer ends

A slot unloaded by software during its transfer let the slot array switch
to another slot, which was then marked pending with an address it never
received data at.
---
 litevideo/input/dma.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 287902a..5a3bca3 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -39,6 +39,7 @@ class _SlotArray(Module, AutoCSR):
         self.address_reached = Signal(addr_bits)
         self.address_valid = Signal()
         self.address_done = Signal()
+        self.hold = Signal() # transfer in progress
 
         # # #
 
@@ -53,7 +54,7 @@ class _SlotArray(Module, AutoCSR):
         current_slot = Signal(max=nslots)
         self.sync += If(change_slot, [If(slot.address_valid, current_slot.eq(n))
                          for n, slot in reversed(list(enumerate(slots)))])
-        self.comb += change_slot.eq(~self.address_valid | self.address_done)
+        self.comb += change_slot.eq((~self.address_valid & ~self.hold) | self.address_done)
 
         self.comb += [
             self.address.eq(Array(slot.address for slot in slots)[current_slot]),
@@ -116,6 +117,9 @@ class DMA(Module):
         fsm = FSM()
         self.submodules += fsm
 
+        # the slot being filled stays selected even if software unloads it
+        self.comb += self._slot_array.hold.eq(~fsm.ongoing("WAIT_SOF"))
+
         fsm.act("WAIT_SOF",
             reset_words.eq(1),
             self.frame.ready.eq(~self._slot_array.address_valid |
-- 
2.43.0


From 76075c4fe4d3c22a68ec0518578c9cec50d88480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:05 +0000
Subject: [PATCH 10/24] fix: EDID: SDA changing just before SCL rises is not a
 START

With both edges between two samples a standard-mode host's data bit (250 ns
set-up) was taken for a START condition.
---
 litevideo/input/edid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 04ccb15..02f1cc4 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -116,7 +116,7 @@ class EDID(Module, AutoCSR):
         ]
 
         start = Signal()
-        self.comb += start.eq(scl_i & sda_falling)
+        self.comb += start.eq(scl_i & scl_r & sda_falling)
 
         din = Signal(8)
         counter = Signal(max=9)
-- 
2.43.0


From e72da86344e0e6742eb82518c10327b970a97d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:05 +0000
Subject: [PATCH 11/24] fix: EDID: release SDA when hot-plug is disabled during
 a read

---
 litevideo/input/edid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 02f1cc4..adbffd7 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -178,7 +178,9 @@ class EDID(Module, AutoCSR):
 
         self.submodules.fsm = fsm = FSM()
 
-        fsm.act("WAIT_START")
+        fsm.act("WAIT_START",
+            data_drv_stop.eq(1)
+        )
         fsm.act("RCV_ADDRESS",
             If(counter == 8,
                 If(din[1:] == 0x50,
-- 
2.43.0


From d95a98b7896461c39470c210aff18da8cc948db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:05 +0000
Subject: [PATCH 12/24] fix: EDID: bytes written after the offset are not
 addresses

They were acknowledged and acted upon when they looked like the device
address, although no START preceded them.
---
 litevideo/input/edid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index adbffd7..14cae50 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -229,7 +229,7 @@ class EDID(Module, AutoCSR):
         fsm.act("ACK_OFFSET2",
             zero_drv.eq(1),
             If(~scl_i,
-                NextState("RCV_ADDRESS")
+                NextState("WAIT_START")
             )
         )
 
-- 
2.43.0


From fdcc67f69e807dc37cf7602fd7f546d53b2c4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:59 +0000
Subject: [PATCH 13/24] fix: TimingGenerator: pull the parameters with the last
 clock of the frame

The registered "last" survived while the parameters were not valid, so that
the first clock after a restart threw away a queued configuration.
---
 litevideo/output/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 536bfb2..54db26d 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -148,6 +148,8 @@ class TimingGenerator(Module):
                         source.de.eq(1),
                     )
                 ), ### but else...what? they don't revert to 0, so they stay "stuck" on when sink is invalid???
+                # parameters are pulled with the last clock of the frame
+                source.last.eq(sink.valid & (hcounter == sink.hscan) & (vcounter == sink.vscan)),
                 sink.ready.eq(source.ready & source.last)
             ]
 
@@ -158,7 +160,6 @@ class TimingGenerator(Module):
                     hcounter.eq(0),
                     vcounter.eq(0)
                 ).Elif(source.ready,  # otherwise, if the thing downstream from us is ready...
-                    source.last.eq(0),  # self.sync is blocking, so this will get over-ridden later as needed
                     hcounter.eq(hcounter + 1),
 
                     If(hcounter == 0, hactive.eq(1)),
@@ -168,8 +169,7 @@ class TimingGenerator(Module):
                     If(hcounter == sink.hscan,  # if we hit the end of the line
                         hcounter.eq(0),  # reset the counter, overriding the +1 earlier coz this is a "blocking" syntax
                         If(vcounter == sink.vscan,
-                            vcounter.eq(0),
-                            source.last.eq(1)
+                            vcounter.eq(0)
                         ).Else(
                             vcounter.eq(vcounter + 1)
                         )
-- 
2.43.0


From 924b53f25deb098bcb4788ec39aa745e925db30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:29 +0000
Subject: [PATCH 14/24] fix: scan-out: each frame is fetched with the
 parameters it is shown with

The DMA reader, which runs ahead of the timing generator, used the parameters
of the frame being shown: after a buffer flip the end of one frame and the
beginning of the next came from the wrong buffer, and what it had fetched too
much when disabled shifted the picture after a quick restart.
---
 litevideo/output/core.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 54db26d..45b9203 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -57,9 +57,9 @@ class DMAReader(Module, AutoCSR):
         length = Signal(dram_port.aw)
         offset = Signal(dram_port.aw)
         self.delay_base = CSRStorage(32)
-        self.comb += [
-            base.eq(sink.base[shift:]),   # ignore the lower bits of the base + length to match the DMA's expectations
-            length.eq(sink.length[shift:]), # need to noodle on what that expectation is, exactly...
+        load = [ # a frame is read with the parameters it started with
+            NextValue(base, sink.base[shift:]),   # ignore the lower bits of the base + length to match the DMA's expectations
+            NextValue(length, sink.length[shift:]), # need to noodle on what that expectation is, exactly...
         ]
 
         if genlock_stream != None:
@@ -76,6 +76,8 @@ class DMAReader(Module, AutoCSR):
             fsm.act("IDLE",
                 NextValue(offset, 0),
                 If(sink.valid,  # if our parameters are valid, start reading
+                       sink.ready.eq(1),  # and indicate we're ready for more parameters
+                       *load,
                        NextState("READ")
                     ).Else(
                         dram_port.flush.eq(1),
@@ -86,7 +88,6 @@ class DMAReader(Module, AutoCSR):
                 If(self.dma.sink.ready, # if the LiteDRAMDMAReader shows it's ready for an address (e.g. taken the current address)
                     NextValue(offset, offset + 1), # increment the offset
                     If(offset == (length - 1),  # at the end...
-                        self.sink.ready.eq(1),  # indicate we're ready for more parameters
                         NextState("IDLE")
                     )
                 )
@@ -95,6 +96,8 @@ class DMAReader(Module, AutoCSR):
             fsm.act("IDLE",
                 NextValue(offset, self.delay_base.storage),
                 If(sink.valid,  # if our parameters are valid, start reading
+                       sink.ready.eq(1),  # and indicate we're ready for more parameters
+                       *load,
                        NextState("READ")
                     ).Else(
                         dram_port.flush.eq(1),
@@ -105,7 +108,6 @@ class DMAReader(Module, AutoCSR):
                 If(self.dma.sink.ready, # if the LiteDRAMDMAReader shows it's ready for an address (e.g. taken the current address)
                     NextValue(offset, offset + 1), # increment the offset
                     If(offset == (length - 1),  # at the end...
-                        self.sink.ready.eq(1),  # indicate we're ready for more parameters
                         NextState("WAIT_SOF")
                     )
                 )
@@ -222,18 +224,28 @@ class VideoOutCore(Module, AutoCSR):
         self.submodules.dma = dma = ClockDomainsRenamer(cd)(DMAReader(dram_port, fifo_depth, genlock_stream))
 
         # ctrl path
-        self.comb += timing.sink.valid.eq(initiator.source.valid) # if the CSR FIFO data is valid, timing may proceed
+        # the parameters of a frame are used twice: by the dma (which fetches ahead) and then by the timing generator
+        params = stream.SyncFIFO(frame_parameter_layout, 2)
+        self.submodules.params = params = ClockDomainsRenamer(cd)(params)
+        if genlock_stream == None:
+            self.comb += [
+                dma.sink.valid.eq(initiator.source.valid & params.sink.ready),
+                params.sink.valid.eq(initiator.source.valid & dma.sink.ready),
+                initiator.source.ready.eq(params.sink.ready & dma.sink.ready),
+            ]
+        else:
+            # parameters are not pulled
+            self.comb += [
+                dma.sink.valid.eq(initiator.source.valid),
+                params.sink.valid.eq(initiator.source.valid),
+            ]
 
         self.comb += [
-            # dispatch initiator parameters to timing & dma
-            dma.sink.valid.eq(initiator.source.valid),   # the DMA's parameter input "pushed" from the initiator, so connect the valids
-            initiator.source.ready.eq(timing.sink.ready), # timing's parameters come from initiator, but this is "pulled" by timing so connect readys
-
             # combine timing and dma
             source.valid.eq(timing.source.valid & (~timing.source.de | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or de is low)
               # the "or de is low" thing seems like a hack to fix some edge case??
             # flush dma/timing when disabled
-            If(~initiator.source.valid,  # if the initiator's (e.g. CSR) outputs aren't valid
+            If(~params.source.valid,  # if there are no parameters (e.g. CSR)
                 timing.source.ready.eq(1), # force the outputs to 1 to keep the DMA running
                 dma.source.ready.eq(1)
             ).Elif(source.valid & source.ready, # else if our DMA output stream has valid data, and is ready to accept addresses
@@ -245,7 +257,8 @@ class VideoOutCore(Module, AutoCSR):
         # data path
         self.comb += [
             # dispatch initiator parameters to timing & dma
-            initiator.source.connect(timing.sink, keep=list_signals(frame_parameter_layout)), # initiator is a compound source, so use "keep" to demux. initiator sources config data to the timer
+            initiator.source.connect(params.sink, keep=list_signals(frame_parameter_layout)), # initiator is a compound source, so use "keep" to demux. initiator sources config data to the timer
+            params.source.connect(timing.sink), # timing's parameters are "pulled" by timing
             initiator.source.connect(dma.sink, keep=list_signals(frame_dma_layout)),  # the initiator sources parameters to the DMA, which are DMA layout config data
 
             # combine timing and dma
-- 
2.43.0


From da7453c1b41269af0aa2bf296cd0104356419fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:40 +0000
Subject: [PATCH 15/24] fix: scan-out in raw mode waits for its data in
 blanking too

In raw mode every clock uses a memory word, but the output was valid without
one outside the active area.
---
 litevideo/output/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 45b9203..22094c6 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -242,7 +242,7 @@ class VideoOutCore(Module, AutoCSR):
 
         self.comb += [
             # combine timing and dma
-            source.valid.eq(timing.source.valid & (~timing.source.de | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or de is low)
+            source.valid.eq(timing.source.valid & ((~timing.source.de & (mode != "raw")) | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or de is low)
               # the "or de is low" thing seems like a hack to fix some edge case??
             # flush dma/timing when disabled
             If(~params.source.valid,  # if there are no parameters (e.g. CSR)
-- 
2.43.0


From c423fd8f9aaaa5b72432b8874a430fbbaa949248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:04 +0000
Subject: [PATCH 16/24] fix: test patterns: colours follow the accepted pixels,
 not the clock

---
 litevideo/output/pattern.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/litevideo/output/pattern.py b/litevideo/output/pattern.py
index 63da58b..bdb6d71 100644
--- a/litevideo/output/pattern.py
+++ b/litevideo/output/pattern.py
@@ -20,7 +20,7 @@ class ColorBarsPattern(Module):
         self.sync += [
             If(sink.valid,
                 source.valid.eq(1),
-                If(source.ready,
+                If(source.valid & source.ready,
                     If(pix == (sink.hres[3:]-1),
                         pix.eq(0),
                         bar.eq(bar + 1)
@@ -50,7 +50,7 @@ class ColorBarsPattern(Module):
                 source.g.eq(color_bar[i][1]),
                 source.b.eq(color_bar[i][2])
             ]
-        self.sync += Case(bar, cases)
+        self.comb += Case(bar, cases)
 
 
 class VerticalLinesPattern(Module):
@@ -66,18 +66,20 @@ class VerticalLinesPattern(Module):
         self.sync += [
             If(sink.valid,
                 source.valid.eq(1),
-                If(source.ready,
+                If(source.valid & source.ready,
                     parity.eq(~parity)
-                ),
-                If(parity,
-                    source.r.eq(255),
-                    source.g.eq(255),
-                    source.b.eq(255)
-                ).Else(
-                    source.r.eq(0),
-                    source.g.eq(0),
-                    source.b.eq(0)
-               )
+                )
+            )
+        ]
+        self.comb += [
+            If(parity,
+                source.r.eq(255),
+                source.g.eq(255),
+                source.b.eq(255)
+            ).Else(
+                source.r.eq(0),
+                source.g.eq(0),
+                source.b.eq(0)
             )
         ]
 
@@ -96,7 +98,7 @@ class DotsPattern(Module):
         self.sync += [
             If(sink.valid,
                 source.valid.eq(1),
-                If(source.ready,
+                If(source.valid & source.ready,
                     If(h == (sink.hres-1),
                         # don't change parity:
                         # next line pixel will
@@ -107,7 +109,9 @@ class DotsPattern(Module):
                         parity.eq(~parity)
                     )
                 )
-            ),
+            )
+        ]
+        self.comb += [
             If(parity,
                 source.r.eq(255),
                 source.g.eq(255),
-- 
2.43.0


From 5deb4d6d5d0a3b72803cb2b2624948029ecc49f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:33 +0000
Subject: [PATCH 17/24] fix: terminal: a line lasts the documented 800 clocks,
 not 801

---
 litevideo/terminal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/terminal/core.py b/litevideo/terminal/core.py
index 8aac296..ab953cc 100755
--- a/litevideo/terminal/core.py
+++ b/litevideo/terminal/core.py
@@ -233,7 +233,7 @@ class Terminal(Module):
                 fx.eq(0),
                 text_addr.eq(text_addr_start)
             ),
-            If(pixel_counter == H_FRONT_PORCH,
+            If(pixel_counter == H_FRONT_PORCH - 1,
                 # Initilize next line
                 pixel_counter.eq(0),
                 line_counter.eq(line_counter + 1),
-- 
2.43.0


From a3c9c634e877abeca947995adc62438db71132ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:52 +0000
Subject: [PATCH 18/24] fix: terminal: vsync falls with the first line of the
 frame, not one clock late

---
 litevideo/terminal/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/litevideo/terminal/core.py b/litevideo/terminal/core.py
index ab953cc..96eef53 100755
--- a/litevideo/terminal/core.py
+++ b/litevideo/terminal/core.py
@@ -237,6 +237,10 @@ class Terminal(Module):
                 # Initilize next line
                 pixel_counter.eq(0),
                 line_counter.eq(line_counter + 1),
+                If(line_counter == V_FRONT_PORCH - 1,
+                    # End of image
+                    line_counter.eq(0)
+                ),
 
                 # Font height is 16 pixels
                 fline.eq(fline + 1),
@@ -252,10 +256,6 @@ class Terminal(Module):
             ).Elif(line_counter < V_BACK_PORCH,
                 vsync.eq(1)
             ),
-            If(line_counter == V_FRONT_PORCH,
-                # End of image
-                line_counter.eq(0)
-            ),
             If(line_counter == V_BACK_PORCH - 1,
                 # Prepare generating next image data
                 fline.eq(0),
-- 
2.43.0


From 6ba37c5039af90c78b6ec55b6d34df7cc39c4df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:18 +0000
Subject: [PATCH 19/24] fix: spartan6 input clocking: reset the pix_o domain
 together with pix

---
 litevideo/input/clocking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/clocking.py b/litevideo/input/clocking.py
index f7b249c..74ff3cf 100644
--- a/litevideo/input/clocking.py
+++ b/litevideo/input/clocking.py
@@ -83,7 +83,10 @@ class S6Clocking(Module, AutoCSR):
             AsyncResetSynchronizer(self._cd_pix, ~locked_async),
             AsyncResetSynchronizer(self._cd_pix2x, ~locked_async),
         ]
-        self.comb += self._cd_pix_o.clk.eq(self._cd_pix.clk)
+        self.comb += [
+            self._cd_pix_o.clk.eq(self._cd_pix.clk),
+            self._cd_pix_o.rst.eq(self._cd_pix.rst)
+        ]
 
 
 class S7Clocking(Module, AutoCSR):
-- 
2.43.0


From 165b37d493e084bbb84b2763ca703599ac6b8b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:18 +0000
Subject: [PATCH 20/24] fix: spartan6 output clocking: VGA pads have no clk_p

---
 litevideo/output/hdmi/s6.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/litevideo/output/hdmi/s6.py b/litevideo/output/hdmi/s6.py
index 10f9b3a..ea65740 100644
--- a/litevideo/output/hdmi/s6.py
+++ b/litevideo/output/hdmi/s6.py
@@ -170,14 +170,15 @@ class S6HDMIOutClocking(Module, AutoCSR):
 
         # Drive HDMI clock pads
         hdmi_clk_se = Signal()
+        inverted = hasattr(getattr(pads, "clk_p", None), "inverted") # no clk_p on VGA pads
         self.specials += Instance("ODDR2",
                                   p_DDR_ALIGNMENT="NONE", p_INIT=0, p_SRTYPE="SYNC",
                                   o_Q=hdmi_clk_se,
                                   i_C0=ClockSignal("pix"),
                                   i_C1=~ClockSignal("pix"),
                                   i_CE=1,
-                                  i_D0=not hasattr(pads.clk_p, "inverted"),
-                                  i_D1=hasattr(pads.clk_p, "inverted"),
+                                  i_D0=not inverted,
+                                  i_D1=inverted,
                                   i_R=0, i_S=0)
         if hasattr(pads, "clk_p"):
             self.specials += Instance("OBUFDS", i_I=hdmi_clk_se,
-- 
2.43.0


From c0cdf11f8e3010d3932f4c1005425160bce67405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:20 +0000
Subject: [PATCH 21/24] fix: video out: in ycbcr422 mode the timing lagged the
 data path by one register too few

---
 litevideo/output/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/output/__init__.py b/litevideo/output/__init__.py
index 248efc4..3d694d5 100644
--- a/litevideo/output/__init__.py
+++ b/litevideo/output/__init__.py
@@ -58,7 +58,7 @@ class VideoOut(Module, AutoCSR):
         elif mode == "ycbcr422":
             ycbcr422to444 = ClockDomainsRenamer(cd)(YCbCr422to444())
             ycbcr2rgb = ClockDomainsRenamer(cd)(YCbCr2RGB())
-            timing_delay = TimingDelay(ycbcr422to444.latency + ycbcr2rgb.latency)
+            timing_delay = TimingDelay(1 + ycbcr422to444.latency + ycbcr2rgb.latency) # 1: core_source_data_d
             timing_delay = ClockDomainsRenamer(cd)(timing_delay)
             self.submodules += ycbcr422to444, ycbcr2rgb, timing_delay
 
-- 
2.43.0


From 7c8a4a1c94fc40d40cbe74ba8178d9100df95b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 22/24] fix: genlocked scan-out starts with the external frame,
 even if enabled in the middle of one

---
 litevideo/output/core.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 22094c6..fd04872 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -95,11 +95,11 @@ class DMAReader(Module, AutoCSR):
         else:
             fsm.act("IDLE",
                 NextValue(offset, self.delay_base.storage),
-                If(sink.valid,  # if our parameters are valid, start reading
+                If(sink.valid & self.sof,  # start with the external frame, even if enabled in the middle of one
                        sink.ready.eq(1),  # and indicate we're ready for more parameters
                        *load,
                        NextState("READ")
-                    ).Else(
+                    ).Elif(~sink.valid,
                         dram_port.flush.eq(1),
                     )
                 )
@@ -108,15 +108,10 @@ class DMAReader(Module, AutoCSR):
                 If(self.dma.sink.ready, # if the LiteDRAMDMAReader shows it's ready for an address (e.g. taken the current address)
                     NextValue(offset, offset + 1), # increment the offset
                     If(offset == (length - 1),  # at the end...
-                        NextState("WAIT_SOF")
+                        NextState("IDLE") # wait till vsync/start of frame
                     )
                 )
             )
-            fsm.act("WAIT_SOF",  # wait till vsync/start of frame
-                If(self.sof,
-                   NextState("IDLE")
-                )
-            )
 
         self.comb += [
             self.dma.sink.address.eq(base + offset),  # input to the DMA is an address of base + offset
-- 
2.43.0


From 86e8f551c2fe95e0f840b8110f5b77efd1f6ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 23/24] fix: capture DMA: the first word of a frame arriving
 right after another was dropped although another slot was loaded

---
 litevideo/input/dma.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 5a3bca3..a583266 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -52,7 +52,8 @@ class _SlotArray(Module, AutoCSR):
 
         change_slot = Signal()
         current_slot = Signal(max=nslots)
-        self.sync += If(change_slot, [If(slot.address_valid, current_slot.eq(n))
+        # a slot that just completed is not a candidate (its status is updated at the next clock)
+        self.sync += If(change_slot, [If(slot.address_valid & ~slot.address_done, current_slot.eq(n))
                          for n, slot in reversed(list(enumerate(slots)))])
         self.comb += change_slot.eq((~self.address_valid & ~self.hold) | self.address_done)
 
-- 
2.43.0


From 438d35aa49ee31b6561145c09f715b77663aaddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:03 +0000
Subject: [PATCH 24/24] fix: EDID: wrap the offset at the end of the memory,
 whatever its size

---
 litevideo/input/edid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 14cae50..8fc2800 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -146,7 +146,11 @@ class EDID(Module, AutoCSR):
             If(oc_load,
                 offset_counter.eq(din)
             ).Elif(oc_inc,
-                offset_counter.eq(offset_counter + 1)
+                If(offset_counter == (mem_size - 1),
+                    offset_counter.eq(0)
+                ).Else(
+                    offset_counter.eq(offset_counter + 1)
+                )
             )
 
         rdport = self.mem.get_port()
-- 
2.43.0

