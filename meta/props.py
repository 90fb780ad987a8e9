"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (python3 meta/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


NOTEST = "The repository has no test of this part at all; "

prop("C01", "HDMI capture recovers from any finite link disturbance and then is exact",
     """Once an HDMI/DVI input signal is clean again after any finite history of link disturbances (bit errors,
     dead lanes, inter-lane skew within the deskew depth, bit slips, source or receiver clock loss and re-lock),
     the receiver reports lock, character sync, channel sync and the transmitted resolution within a bounded
     number of frames.  From then on every frame captured into memory is, pixel for pixel, the transmitted
     picture in the configured pixel format.""",
     ["fault_sequences", "schedules", "inputs", "configurations"],
     """every link fault history, lane skew and bit phase, clock phase between pixel and system domain, memory
     backpressure that the FIFO can absorb, picture content and timing, sync polarity, device family, DVI or HDMI
     signalling, rgb and ycbcr422 modes""",
     NOTEST + "the guarantee is over fault histories and clock phases of the whole receive chain.",
     ["litevideo/input/__init__.py", "litevideo/input/charsync.py", "litevideo/input/chansync.py",
      "litevideo/input/decoding.py", "litevideo/input/analysis.py", "litevideo/input/dma.py",
      "litevideo/input/datacapture.py", "litevideo/input/clocking.py"],
     [("receive chain wiring", "litevideo/input/__init__.py HDMIIn"),
      ("character alignment", "litevideo/input/charsync.py"), ("lane deskew", "litevideo/input/chansync.py")],
     [("synced / chan_synced / valid_o", "what the chain believes about alignment", "charsync, chansync, analysis")],
     ["CSRs: locked, char_synced, channels_synced, hres, vres", "writes on the DRAM port"])

prop("C02", "EDID: every DDC host transaction gets the addressed EDID bytes",
     """The EDID device acknowledges exactly the transfers addressed to it, and a read returns the EDID memory
     bytes from the offset last written (further written bytes are ignored), auto-incrementing and continuing across transactions and wrapping at the end of the memory.
     It never drives SDA other than low, only during its own acknowledge and data bits, never blocks the bus for
     longer than that, and answers a fresh START after any aborted, foreign or hot-plug-interrupted transfer.
     The default EDID a host reads is valid (header, checksum of every block, extension count).
     The hot-plug enable and notification pins follow and report what software sees.""",
     ["histories", "fault_sequences", "schedules", "configurations"],
     """every sequence of DDC transactions (write offset, current-address read, repeated start, abort or stop at any bit,
     foreign address, hot-plug disable at any time, software reads), host timing within standard mode, clock jitter, reset,
     EDIDs of one to four blocks of 128 bytes, normal and inverted or split SDA pads""",
     NOTEST + "correctness is over protocol histories, abort points and asynchronous sampling phases.",
     ["litevideo/input/edid.py"],
     [("I2C slave state machine", "litevideo/input/edid.py EDID fsm"), ("bus sampling", "litevideo/input/edid.py samp_count")],
     [("offset_counter", "next byte to read", "edid.py"), ("data_drv/zero_drv", "SDA drive", "edid.py")],
     ["SDA/SCL pads", "hpd pads and CSRs"])

prop("C03", "Character sync locks to any bit phase, keeps it, and follows a bit slip",
     """After control periods of at least twelve consecutive control words at any fixed bit phase, the receiver
     reports character sync and that bit position, and from then on every transmitted 10-bit word is output intact, in order,
     with constant latency.  The alignment never moves while the stream keeps its phase and is not shifted by isolated
     corrupted words or control-like patterns in pixel data (fewer consecutive ones than required); after a bit slip it re-aligns on the next such control period.""",
     ["inputs", "fault_sequences", "schedules"],
     """every initial bit phase, word stream, slip position and amount, bit error pattern and reset point""",
     NOTEST + "the property ranges over stream contents, phases and fault positions.",
     ["litevideo/input/charsync.py"],
     [("control token search, consecutive-hit counter and word selector", "litevideo/input/charsync.py CharSync")],
     [("word_sel", "selected bit phase", "charsync.py"), ("control_counter", "consecutive hits", "charsync.py")],
     ["data, synced, ctl_pos CSR"])

prop("C04", "Channel sync removes any skew within the buffer depth and says when it did",
     """With three lanes skewed against each other by at most six characters, once one whole line (a control period of at least
     twelve words and an active period of at least sixteen) has passed since reset or since the skew last changed, from the next control period on the three outputs are word-aligned
     (a word leaves together with the words sent together with it), no word of the active periods is lost, duplicated or reordered on
     any lane, and channel sync is reported.  Invalid input clears the report, and it is withdrawn whenever the outputs disagree on control and active.""",
     ["inputs", "fault_sequences", "schedules"],
     """every lane skew up to the depth, lengths of control and active periods, skew changes, validity drops, reset points""",
     NOTEST + "it is quantified over skews and disturbance histories.",
     ["litevideo/input/chansync.py"],
     [("per-lane circular buffer stalled on control words", "litevideo/input/chansync.py _SyncBuffer, ChanSync")],
     [("produce/consume", "buffer pointers per lane", "chansync.py")],
     ["data_out0..2, chan_synced, channels_synced CSR"])

prop("C05", "TMDS coding: lossless, DC-balanced, transition-limited in any stream",
     """For every stream of active and blanking periods the encoder emits, with fixed latency, TMDS words that decode
     (and that the receive decoder decodes) to exactly the same pixel bytes, control values and data-enable; control periods use exactly the four
     standard tokens and no pixel word equals one.  Pixel words have at most four transitions in their low nine bits,
     are the DVI 1.0 encoding for the running disparity, and the accumulated disparity stays bounded, restarting at zero after each control period.""",
     ["inputs", "histories", "crash_points"],
     """every byte and control sequence, lengths and positions of blanking, reset at any cycle; bit errors injected on
     the link must affect only the words they hit""",
     NOTEST + "running disparity makes it a property of unbounded histories.",
     ["litevideo/output/hdmi/encoder.py", "litevideo/input/decoding.py", "litevideo/input/common.py"],
     [("four-stage encoder with disparity counter", "litevideo/output/hdmi/encoder.py Encoder"),
      ("token and byte decoder", "litevideo/input/decoding.py Decoding")],
     [("cnt", "running disparity", "encoder.py")], ["encoder out", "decoder output"])

prop("C06", "Sync polarity is normalised and the measured resolution is the sent one",
     """Whatever the polarity of hsync and vsync, the recovered syncs are active high once a line has been seen, pixels, data enable and syncs leave with the same
     latency, and pixel bytes are unchanged.  The horizontal and vertical resolution registers read zero while the input is invalid, and after
     validity or the mode returns they report exactly the active pixels per line and lines per frame of the last complete line and frame as soon as one has passed (syncs are taken to be inactive in
     the first character after each active line, as in all CEA and VESA timings).""",
     ["inputs", "histories", "fault_sequences"],
     """every video timing up to 2047x2047 with any porches, any polarity, mode changes, and signal loss and recovery at any point""",
     NOTEST + "mode changes and loss points are histories.",
     ["litevideo/input/analysis.py"],
     [("polarity sampling during active video", "litevideo/input/analysis.py SyncPolarity"),
      ("pixel and line counters", "litevideo/input/analysis.py ResolutionDetection")],
     [("c_polarity", "level of the syncs during active video", "analysis.py"),
      ("hcounter/vcounter", "measurement in progress", "analysis.py")], ["hsync, vsync, de, r, g, b", "hres, vres CSRs"])

prop("C07", "Frame extraction: the word stream is the picture, overflow is never silent",
     """For every frame the words delivered on the system side are exactly the frame's active pixels in order, packed
     most-significant first in the configured pixel format, with start-of-frame on the first word of
     the frame and nowhere else, however slowly the system side accepts them.  A word is dropped only when the FIFO is full, and
     then the overflow flag reads set until software clears it; without a drop it never reads set.""",
     ["schedules", "inputs", "histories", "configurations"],
     """every picture and timing (frames whose pixel count fills whole words), backpressure schedule, clock ratio and
     phase between pixel and system domains, invalid periods between frames, clear-overflow timing (clears further apart than the synchroniser takes), word widths of at least two pixels, FIFO depth, rgb and ycbcr422""",
     NOTEST + "it depends on clock-domain schedules and backpressure histories.",
     ["litevideo/input/analysis.py", "litevideo/csc/rgb2ycbcr.py", "litevideo/csc/ycbcr444to422.py"],
     [("pixel packer, async FIFO, overflow synchronisers", "litevideo/input/analysis.py FrameExtraction")],
     [("pack_counter/cur_word", "word being packed", "analysis.py"), ("sof", "next word starts a frame", "analysis.py"),
      ("pix_overflow/overflow_mask", "overflow bookkeeping across domains", "analysis.py")],
     ["frame endpoint", "overflow CSR"])

prop("C08", "Capture DMA writes only loaded buffers, whole frames, and tells the truth",
     """A frame is written only into a slot software marked loaded, as consecutive words from that slot's address
     beginning with the frame's first word and ending after exactly the configured frame size, so memory outside the buffer and slots not loaded
     are never touched.  A slot becomes pending, raises its interrupt, and reports its end address only after all its
     words were written; it is not reused until software reloads it, and frames are taken whole or not at all, never from the middle; a frame that starts while a slot is loaded and no transfer is under way is taken.""",
     ["schedules", "histories", "configurations"],
     """every order and timing of software loading, acknowledging and reprogramming slots, memory command and data
     stalls, frame streams with gaps, truncated and overlong frames, slot counts 2 to 4, bus widths""",
     NOTEST + "it is a concurrency property of software, camera stream and memory.",
     ["litevideo/input/dma.py"],
     [("slot array", "litevideo/input/dma.py _SlotArray"), ("transfer state machine", "litevideo/input/dma.py DMA"),],
     [("slot status", "empty/loaded/pending", "dma.py _Slot"), ("current_address, mwords_remaining", "progress", "dma.py DMA")],
     ["DRAM port commands and data", "slot CSRs, event CSRs, irq"])

prop("C09", "Word error rate counts exactly the invalid words of a measurement period",
     """The reported value is the number of words with more than four transitions in their low nine bits that are not
     control words received during one complete measurement period, at most one missing at the period boundary, and zero for an
     error-free stream.  The register changes only when software asks for an update, and then shows the last period completed
     before it; a count is never torn between clock domains.""",
     ["inputs", "schedules", "fault_sequences"],
     """every word stream and error pattern, period length, update timing, clock ratio and phase, metastability resolution""",
     NOTEST + "counter transfer between unrelated clocks is a schedule property.",
     ["litevideo/input/wer.py"],
     [("transition counter, period counter, pulse-synchronised snapshot", "litevideo/input/wer.py WER")],
     [("wer_counter, wer_counter_r", "running and latched count", "wer.py")], ["value CSR"])

prop("C10", "HDMI signalling: data islands never become pixels, video periods always do",
     """In HDMI mode the recovered data enable is high for exactly the pixels that follow a video guard
     band until the next control word, aligned with the pixel data, whatever data islands (preamble, guard bands, TERC4 content) appear in blanking, and it is low
     throughout islands, guard bands and preambles.  In DVI mode selected by software it equals the DVI data enable,
     and after any corrupted island or lost sync the state recovers by the next control period.""",
     ["inputs", "histories", "fault_sequences"],
     """every sequence of control, preamble, guard band, island and video periods of legal length, corrupted words, mode switches, loss of sync""",
     NOTEST + "the decoder is a state machine over unbounded symbol histories.",
     ["litevideo/input/decoding.py", "litevideo/input/__init__.py"],
     [("period tracking state machine", "litevideo/input/decoding.py DecodeTERC4")],
     [("fsm state", "period being received", "decoding.py DecodeTERC4")], ["de after alignment with the delayed data"])

prop("C11", "Lane capture: bits in order, one delay tap per command, honest phase status",
     """Each lane delivers the received serial bits in order as 10-bit words (inverted pads included), without
     losing, repeating or reordering any, at every phase between its clocks.  Every delay command written by software moves the
     selected input delay by exactly one tap or resets it, busy status covers the whole operation, and tap read-back matches;
     the phase status saturates early or late exactly according to the accumulated phase votes and is restarted only by software.""",
     ["schedules", "inputs", "histories", "configurations"],
     """every bit stream, clock phase, command sequence and spacing (one command outstanding per synchroniser and none across a reset of the capture clock domain), device family and pad polarity""",
     NOTEST + "it crosses three clock domains with vendor primitives.",
     ["litevideo/input/datacapture.py"],
     [("serdes, gearbox, delay control synchronisers", "litevideo/input/datacapture.py S7DataCapture, S6DataCapture"),
      ("phase detector", "litevideo/input/datacapture.py S7PhaseDetector")],
     [("lateness", "accumulated phase votes", "datacapture.py"), ("pending flags", "outstanding delay operation", "datacapture.py")],
     ["d, delay primitive ports, dly_ctl/phase/busy/cntvalueout CSRs"])

prop("C12", "Clock control: DRP accesses, lock and resets follow the hardware",
     """Every software read or write of a clock generator's reconfiguration port reaches exactly the addressed
     generator once with the written address and data, the ready flag clears at the request and sets when that generator completes,
     and the data read back is the generator's.  A receiver's generators are held in reset until software
     releases them, the output pixel clock of split clocking follows the input pixel clock, the locked flag follows the generator
     (on Spartan-6 its I/O clock buffer), pixel domains are held in reset while it is unlocked, and the Spartan-6 output clock programmer serialises each command bit-exactly with the required gap and busy flag.""",
     ["histories", "schedules", "fault_sequences", "configurations"],
     """every sequence of accesses and resets, completion latency, lock loss at any time, both families, shared and split clocking""",
     NOTEST + "it is a handshake with asynchronous primitives.",
     ["litevideo/input/clocking.py", "litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py"],
     [("DRP handshake", "litevideo/input/clocking.py, litevideo/output/hdmi/s7.py"),
      ("DCM serial programming", "litevideo/output/hdmi/s6.py S6HDMIOutClocking")],
     [("drdy status", "completion flag", "clocking.py"), ("remaining_bits, busy_counter", "serial programmer", "s6.py")],
     ["primitive ports, CSRs, domain resets"])

prop("C13", "Video timing: every frame has exactly the programmed geometry",
     """While enabled with valid parameters, the output consists of frames whose total, active, sync start and sync end positions
     horizontally and vertically (scan = total minus one, syncs counted from the first active pixel or line) are exactly the programmed ones, with data enable over exactly the active area, regardless
     of when the consumer or memory stalls.  Parameter changes and disabling take effect only between frames.""",
     ["inputs", "schedules", "histories"],
     """every legal parameter set, consumer stall schedule, parameter change and enable/disable history""",
     "The only test of this part does not run on the installed LiteDRAM and asserts nothing; the geometry must hold for every parameter set and stall schedule.",
     ["litevideo/output/core.py", "litevideo/output/common.py"],
     [("timing counters", "litevideo/output/core.py TimingGenerator"), ("parameter FIFO", "litevideo/output/core.py Initiator")],
     [("hcounter, vcounter", "scan position", "core.py TimingGenerator")], ["video stream hsync, vsync, de"])

prop("C14", "Scan-out: pixel n of a frame is memory word n of its buffer, at any latency",
     """Each active pixel (in raw mode each clock) carries exactly the memory word at the frame buffer base plus its index, frame after
     frame, whatever the memory latency, stalls and consumer backpressure: data are delayed but never lost, duplicated, shifted or
     taken from another buffer.  Only addresses of the buffer are read, and the underflow counter counts exactly the
     pixel clocks without valid output while enabled.""",
     ["schedules", "inputs", "configurations"],
     """every memory command and data latency schedule, consumer stalls, base address, frame size, fifo depth, mode, clock ratio""",
     "The only bench feeds one ideal memory and does not run on the installed LiteDRAM; latency schedules are never explored.",
     ["litevideo/output/core.py"],
     [("DMA reader", "litevideo/output/core.py DMAReader"), ("combination of timing and data", "litevideo/output/core.py VideoOutCore")],
     [("offset", "next word", "core.py DMAReader"), ("underflow_counter", "clocks without data", "core.py")],
     ["video stream", "DRAM port", "underflow CSR"])

prop("C15", "Reconfiguration and multi-buffering: each shown frame is from one buffer, whole",
     """After any history of parameter writes, buffer flips, disabling and re-enabling, and losses of the pixel clock (resets of its domain), every
     frame shown uses one consistent parameter set
     and one frame buffer from its first to its last pixel, a configuration that stays written is eventually shown, and configurations are
     shown in the order written (only the few frames right after a loss of the pixel clock may show queued configurations again).  After disabling, output stops between frames, and re-enabling starts again with the first pixel of the first line.""",
     ["histories", "schedules", "crash_points"],
     """every interleaving of software writes (the buffer base at any time, other registers while disabled) with scan-out, memory latency and resets of the pixel domain longer than the memory takes to answer""",
     NOTEST.replace("this part", "reconfiguration") + "flips race with scan-out.",
     ["litevideo/output/core.py"],
     [("parameter FIFO pulled at frame end", "litevideo/output/core.py Initiator, VideoOutCore"),
      ("DMA parameter use", "litevideo/output/core.py DMAReader")],
     [("parameter FIFO", "queued configurations", "core.py Initiator")], ["video stream", "DRAM port addresses"])

prop("C16", "Output PHYs put exactly the video stream on the pins",
     """The serial lanes carry, least significant bit first, the TMDS encoding of blue with hsync and vsync, green, and red (or the raw
     words in raw mode) with all lanes aligned to each other, inverted pads complemented, and the pixel clock pattern on the clock lane; the VGA outputs carry
     the most significant bits and inverted syncs.  In ycbcr422 mode the displayed colour and the timing of each pixel are those of
     the same memory pixel.""",
     ["inputs", "schedules", "configurations"],
     """every picture and timing, memory latency that does not underflow, clock phases, device family, mode and pad polarity""",
     NOTEST + "it spans clock domains and serialisers.",
     ["litevideo/output/__init__.py", "litevideo/output/driver.py", "litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py"],
     [("serialisers", "litevideo/output/hdmi/s7.py, s6.py"), ("mode wiring and timing delay", "litevideo/output/__init__.py VideoOut")],
     [("pipeline registers", "pixels in flight", "output/__init__.py")], ["pads"])

prop("C17", "Loopback: what the output shows is what the input captures",
     """A picture scanned out of memory by the video output, sent over its TMDS lanes with arbitrary lane skew and bit phase into the HDMI input, is captured
     back into memory bit-exactly in rgb mode, for every frame after lock.  Interruptions of the cable or
     of either side's clock only cost whole frames until lock is regained.""",
     ["fault_sequences", "inputs", "schedules"],
     """every picture, geometry, skew, phase, cable interruption and memory stall pattern on both sides""",
     NOTEST + "it composes both halves of the library.",
     ["litevideo/output/__init__.py", "litevideo/input/__init__.py"],
     [("transmit chain", "litevideo/output/__init__.py VideoOut"), ("receive chain", "litevideo/input/__init__.py HDMIIn")],
     [("both memories", "source and captured pictures", "harness")], ["DRAM ports on both sides"])

prop("C18", "Test patterns depend only on position, not on backpressure",
     """The n-th pixel accepted from a pattern source is the pattern's pixel n (eight equal colour bars per line, alternating
     columns, or a checkerboard for the programmed width), however the consumer stalls, and a presented pixel stays unchanged until accepted.""",
     ["schedules", "inputs", "crash_points"],
     """every width multiple of eight, stall schedule and reset point""",
     NOTEST + "stalls are schedules.",
     ["litevideo/output/pattern.py"],
     [("pixel and bar counters", "litevideo/output/pattern.py")],
     [("pix, bar, parity, h", "position in the pattern", "pattern.py")], ["source endpoints"])

prop("C19", "Colour conversion: every accepted pixel comes out once, in order, converted",
     """Each colour converter (RGB to YCbCr, YCbCr to RGB, RGB to and from 16-bit float) outputs, for every accepted
     pixel, exactly one pixel in order whose value is the documented conversion of that pixel within rounding, saturated and never wrapped,
     with its first and last marks, whatever bubbles and backpressure occur.""",
     ["schedules", "inputs", "crash_points"],
     """every pixel value and token sequence, valid and ready schedule and reset point""",
     "The benches convert one image each with constant flow and compare nothing; stalls and most values are never tried.",
     ["litevideo/csc/rgb2ycbcr.py", "litevideo/csc/ycbcr2rgb.py", "litevideo/csc/rgb2rgb16f.py", "litevideo/csc/rgb16f2rgb.py", "litevideo/csc/common.py"],
     [("pipelined datapaths", "litevideo/csc/*.py"), ("pipeline control", "litex PipelinedActor")],
     [("pipeline registers", "pixels in flight", "csc")], ["source endpoints"])

prop("C20", "Chroma resampling: pairs are formed from accepted pixels and averaged exactly",
     """Downsampling outputs every luma sample unchanged with the pair's averaged blue chroma on its first and red chroma on its second pixel;
     upsampling gives both pixels of a pair the pair's chroma.  No pixel is lost, duplicated, reordered or
     paired with a pixel of another pair, and first and last marks stay with their pixels, whatever bubbles and backpressure occur.""",
     ["schedules", "inputs", "crash_points"],
     """every even-length token sequence, valid and ready schedule and reset point""",
     "The benches never stall and compare nothing.",
     ["litevideo/csc/ycbcr444to422.py", "litevideo/csc/ycbcr422to444.py"],
     [("pair state", "litevideo/csc/ycbcr444to422.py, ycbcr422to444.py")],
     [("parity", "first or second pixel of a pair", "csc")], ["source endpoints"])

prop("C21", "Half-precision add and multiply streams are exact within one rounding",
     """For every pair of accepted non-negative finite half-precision operands whose result is finite (subnormals and
     zero included), the adder and multiplier output one result per pair, in order, within one unit in the last place of the
     exact result (truncation), whatever bubbles and backpressure occur.""",
     ["schedules", "inputs", "crash_points"],
     """every operand pair in the supported domain, token sequence, valid and ready schedule and reset point""",
     "The benches print a handful of sums and products with constant flow and assert nothing.",
     ["litevideo/float_arithmetic/floatadd.py", "litevideo/float_arithmetic/floatmult.py", "litevideo/float_arithmetic/common.py"],
     [("align, add or multiply, normalise pipeline", "litevideo/float_arithmetic/*.py")],
     [("pipeline registers", "operands in flight", "float_arithmetic")], ["source endpoints"])

prop("C22", "Terminal bus: every access is acknowledged once and memory keeps every byte",
     """Each Wishbone access to the terminal is acknowledged exactly once, a read returns the byte last written to that
     address or the documented initial content, and an access changes no other byte, for any sequence and spacing of
     accesses and any relation of the bus and video clocks.""",
     ["histories", "schedules"],
     """every access sequence over the text and font memory, spacing, clock ratio and reset point""",
     NOTEST + "it is a history property of a memory shared by two clock domains.",
     ["litevideo/terminal/core.py"],
     [("immediate acknowledge and registered write", "litevideo/terminal/core.py Terminal")],
     [("mem", "text, colour and font memory", "terminal/core.py")], ["wishbone bus"])

prop("C23", "Terminal picture: the VGA signal shows exactly the text memory",
     """The VGA output has the documented line and frame timing (96/48/640/16 clocks, 2/29/480/10 lines, negative syncs) and every visible
     pixel is the foreground or background palette colour selected by the font bit of the character at that position, for
     the memory contents in force when the character is fetched.  Outside the visible area the output is black, and memory writes at any time disturb only the
     characters written.""",
     ["schedules", "inputs", "histories"],
     """every memory content, timing of bus writes against scan-out, clock ratio and phase, and reset point""",
     NOTEST + "it is a race between bus writes and a free-running scan.",
     ["litevideo/terminal/core.py"],
     [("character fetch pipeline and timing counters", "litevideo/terminal/core.py Terminal")],
     [("pixel_counter, line_counter, fx, fline", "scan position", "terminal/core.py")], ["red, green, blue, hsync, vsync"])

prop("C25", "Genlock: an externally timed picture starts with the buffer's first word, every frame",
     """With an external timing stream the output repeats that timing unchanged, and from the first external frame that begins after the scan-out
     was enabled, at whatever moment of a frame that was, or since the pixel clock came back after a loss (a reset of its domain), pixel n of every frame is word n of the frame buffer, counted from the
     programmed delay base.  No pixel is valid before,
     and only words of the buffer are read.""",
     ["schedules", "inputs", "configurations"],
     """every moment of enabling within the external frame, resets of the pixel domain at any moment with the source coming back anywhere in its frame, external geometry, buffer address, memory latency and stalls the FIFO can make up for, fifo depth, format""",
     NOTEST.replace("this part", "genlocked output") + "the outcome depends on when in a frame it is enabled.",
     ["litevideo/output/core.py"],
     [("start of frame detection and restart of the reader", "litevideo/output/core.py DMAReader"), ("timing pass-through", "litevideo/output/core.py TimingGenerator, VideoOutCore")],
     [("offset", "next word", "core.py DMAReader")], ["video stream", "DRAM port"])

prop("C26", "HDMI data islands are reported and decoded exactly, and every raw word is passed on",
     """In any HDMI stream the receiver's period flags mark exactly what was sent, each at one fixed latency: encoding_terc4 the data islands
     with both guard bands, encrypting_data the island's data characters, encrypting_video the pixels of video periods (it may stay for the
     one character that ends the period).  Every island data character is decoded to the nibble sent on each channel, every control character
     to its control value and the CTL code of channels 1 and 2, and the raw words of the aligned channels leave unchanged
     (syncpol c0, c1, c2); after a corrupted period or loss of sync this holds again from the fourth
     character of the next clean control period on.""",
     ["inputs", "histories", "fault_sequences"],
     """every sequence of control, preamble, guard band, island (1 to 18 packets, back to back) and video periods, every nibble, corrupted words, bit slips, lane skew and phase""",
     NOTEST + "the period tracking is a state machine over unbounded symbol histories, marked untested in the source.",
     ["litevideo/input/decoding.py", "litevideo/input/__init__.py"],
     [("TERC4 and control decoding", "litevideo/input/decoding.py DecodeTERC4Channel"), ("period tracking", "litevideo/input/decoding.py DecodeTERC4 fsm")],
     [("fsm state", "period being received", "decoding.py DecodeTERC4")], ["encoding_terc4, encrypting_data, encrypting_video, ctl_code", "dataN_dect4.decval", "syncpol.c0, c1, c2"])

prop("C27", "Pass-through: input and output share a memory, and every frame shown is one captured frame, whole",
     """When the HDMI input captures into the memory the video output scans and software hands each captured buffer to the output by rewriting its
     base register, every frame shown is exactly the content of one buffer handed over, complete and never mixed with another; the buffers shown follow
     the order in which they were handed over, a replaced buffer is not shown more than a bounded number of frames longer, and the last one handed over is
     shown in the end.  Once the link is clean these are the transmitted pictures (words bit for bit in rgb, converted in ycbcr422).""",
     ["fault_sequences", "schedules", "histories"],
     """every link fault history and lane skew, relation of input, output and system clocks (frames dropped or repeated), memory stall, consumer stall, number of buffers and software delay""",
     NOTEST + "it composes capture, memory, software and scan-out.",
     ["litevideo/input/__init__.py", "litevideo/input/dma.py", "litevideo/input/analysis.py", "litevideo/output/core.py"],
     [("capture slots", "litevideo/input/dma.py"), ("parameter queue and fetch", "litevideo/output/core.py Initiator, DMAReader")],
     [("slot status and initiator base", "who owns a buffer", "CSRs")], ["video stream of VideoOutCore", "DRAM ports on both sides"])

prop("C24", "Fixed constants and build-time rejections are as documented",
     """Conversion coefficients are those of the video standards, and unsupported modes are refused when the core is built.""",
     ["configurations"],
     """the finite set of built-in tables and configurations""",
     "It is a static fact of tables and constructor arguments; tests simply do not look.",
     ["litevideo/csc/common.py", "litevideo/output/core.py"],
     [("tables and assertions", "constructors")])

NA = {
    "C24": "pure build-time data: no schedule, clock, I/O, fault or second party that a simulated execution could vary; deterministic simulation adds nothing to reading the table (the coefficients' run-time effect is covered by C19)",
}

PENDING = "check not built yet"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    from importlib import import_module
    checks, na = [], []
    for p in P:
        i = p["id"]
        path = os.path.join(HERE, "sim", "checks", i.lower() + ".py")
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif not os.path.exists(path):
            na.append({"property": i, "reason": PENDING})
        else:
            checks.append({
                "property": i,
                "quick_cmd": "./run.sh check %s" % i,
                "thorough_cmd": "VERIF_TIER=thorough ./run.sh check %s" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": "deterministic simulation with fault injection: seeded search over schedules, inputs and fault sequences against a reference model",
                "level": "exploration",
                "level_note": "violations are exact and replayable; absence is evidence over the seeded runs counted in the evidence file, not proof"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
