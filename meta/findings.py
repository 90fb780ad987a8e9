"""Rewrites known-findings.json from FIXED and KNOWN below (run by hand, never by a check)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("C19", "b4bd8db", "RGB2RGB16f: sign bit set by wide pixels, leading one counted one too far, zero pixel not zero"),
    ("C21", "00e59ad", "FloatMult: the product of one pair was normalised with the exponent of the next; subnormal results wrong"),
    ("C21", "73c4e9e", "FloatAdd: subnormal operands misaligned, zero and subnormal sums packed wrongly"),
    ("C20", "eabb097", "YCbCr422to444 dropped first and last marks"),
    ("C20", "2b906b4", "YCbCr444to422 formed chroma pairs from clock cycles, not from accepted pixels: bubbles or backpressure mixed pairs"),
    ("C10", "2f33593", "DecodeTERC4: data enable missed the first and/or covered the last pixels of a video period"),
    ("C07", "98759ec", "FrameExtraction: a partial word left in the packer was emitted as the start of the next frame"),
    ("C08", "4c06cb3", "capture DMA: with two or more slots the event sources shared a name and the core did not elaborate"),
    ("C08", "e28e5de", "capture DMA: a slot unloaded during its transfer let another slot be marked pending with an address it got no data at"),
    ("C08", "86e8f55", "capture DMA: the first word of a frame arriving right after another was dropped although another slot was loaded"),
    ("C02", "76075c4", "EDID: a data bit falling just before SCL rises (250 ns set-up) was taken for a START when both edges fell between two samples"),
    ("C02", "e72da86", "EDID: SDA stayed pulled low when hot-plug was disabled while a zero bit was driven"),
    ("C02", "438d35a", "EDID: reading on past the end of a memory that is no power of two long (384 bytes) returned bytes from outside it instead of wrapping"),
    ("C02", "d95a98b", "EDID: bytes written after the offset were taken for device addresses without a START"),
    ("C15", "fdcc67f", "TimingGenerator: a stale end-of-frame mark made the first clock after a restart throw away a queued configuration"),
    ("C15", "924b53f", "scan-out DMA used the parameters of the frame being shown while it fetched ahead: torn frames at a flip, shifted picture after a quick restart"),
    ("C14", "da7453c", "raw mode: outside the active area clocks were output without a memory word when memory was late"),
    ("C18", "c423fd8", "test patterns: registered colours moved on while the presented pixel waited"),
    ("C23", "5deb4d6", "terminal: a line lasted 801 clocks instead of the documented 800"),
    ("C23", "a3c9c63", "terminal: vsync fell one clock after the first line of the frame had begun"),
    ("C12", "6ba37c5", "Spartan-6 input clocking: the pix_o domain was never reset while the PLL was unlocked"),
    ("C16", "165b37d", "Spartan-6 output clocking did not elaborate with VGA pads (no clk_p)"),
    ("C16", "c0cdf11", "VideoOut ycbcr422: de and syncs led the pixels by one clock, so each line began with the previous line's last colour"),
    ("C25", "7c8a4a1", "genlocked scan-out enabled in mid-frame started at once: with the frame buffered in the FIFO the picture stayed shifted for good"),
]
KNOWN = []
out = {"findings": [{"id": "fixed-%s-%s" % (p, c), "property": p, "status": "fixed",
                     "line": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in FIXED] + KNOWN}
with open(os.path.join(HERE, "known-findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
