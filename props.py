"""Registry: what each check runs."""
PROPS = {}


def cxx(id, src, libs, quick, thorough, rule, require, san="asan", **kw):
    spec_keys = ("assumptions", "exhaustive", "level")
    spec = {k: kw.pop(k) for k in list(kw) if k in spec_keys}
    job = dict(bin=id.lower(), src=[src] if isinstance(src, str) else src, lib=libs, san=san, quick=quick, thorough=thorough, **kw)
    PROPS[id] = dict(jobs=[job], rule=rule, require=require, **spec)


cxx("T01", "text.cpp", ["core"], 60000, 4000000,
    "random history of 1..24 writes/directives/clears on a buffer of random capacity; content compared with a string model after every write; non-trivial: more than 4 operations or some write met a full buffer",
    {"writes checked": 100000, "string cut": 100, "integer refused": 100, "byte refused": 100, "bytes cut": 100, "char refused": 100, "exact fit": 10})
cxx("T02", "text.cpp", ["core"], 60000, 4000000,
    "random writes incl. extreme widths/precisions on exact heap blocks and canary arenas; non-trivial: more than 4 operations, near-full buffer or width beyond the room",
    {"writes checked": 100000, "width beyond room": 1000, "nearly full": 1000, "float": 1000, "beyond 64 KiB": 5})
cxx("T03", "text.cpp", ["core"], 60000, 4000000,
    "sequences of integers of all types with width/fill; compared with an independent decimal rendering; non-trivial: padded/overlong field or at least ten digits",
    {"integers checked": 100000, "padded": 1000, "longer than field": 1000, "int": 100, "unsigned": 100, "long": 100, "unsigned long": 100, "long long": 100, "unsigned long long": 100})
cxx("T04", "text.cpp", ["core"], 200000, 20000000,
    "one float (uniform bits, near integers, near decimal carries, specials) and precision; text parsed back; repeated in smaller buffers; non-trivial: fractional value with digits, or special value",
    {"finite checked": 50000, "special checked": 1000, "negative fraction": 1000, "cut checked": 10000})
cxx("S01", "storage.cpp", ["core"], 60000, 3000000,
    "random history of stores/updates/loads of objects of 40 sizes and alignments in a region of random size and address; every stored object re-read after every operation; non-trivial: an update, a refusal, an exact fit or more than two objects",
    {"objects re-read": 100000, "updated": 1000, "stored": 1000, "loaded": 1000, "absent": 1000, "exact fit": 50, "refused: name": 100, "refused: size": 20, "refused: room": 100, "regions beyond 64 KiB": 20})
cxx("S02", "storage.cpp", ["core"], 40000, 2000000,
    "random histories with reopenings in place and of copies at other addresses, continued on both; contents, absence and free room compared; non-trivial: at least two objects present at a reopening",
    {"reopened in place": 1000, "reopened as a copy": 1000, "re-initialised": 500, "objects re-read": 50000, "reopened full": 20, "regions beyond 64 KiB": 20})
cxx("S03", "storage.cpp", ["core"], 60000, 3000000,
    "random histories aimed at the capacity limits in exact heap blocks; acceptance compared with the room left, region compared after refusals; non-trivial: a refusal, an update or an exact fit",
    {"exact fit": 500, "filled to the last byte": 200, "refused: room": 1000, "refused: name": 500, "refused: size": 50, "operations": 100000, "regions beyond 64 KiB": 20})
cxx("S04", "storage.cpp", ["core"], 100000, 6000000,
    "regions of random bytes, record chains with damaged size fields, bit flips and truncations in exact heap blocks, opened and used; non-trivial: an object was found or stored in such a region",
    {"objects found in damaged regions": 5000, "updated in damaged region": 1000, "stored in damaged region": 1000, "refused in damaged region": 1000, "damaged region reopened": 1000})
_s05 = dict(src=["storage.cpp"], lib=["core"], flags=["-DVF_BYTEWISE_MEMORY", "-fno-builtin", "-mno-avx", "-fno-tree-vectorize"])
PROPS["S05"] = dict(jobs=[dict(_s05, bin="s05-o1", san=["-O1", "-g"], quick=5000, thorough=400000),
                          dict(_s05, bin="s05-o0", san=["-O0", "-g"], quick=3000, thorough=200000),
                          dict(_s05, bin="s05-clang", san=["-O2", "-g"], cxx="clang++", quick=3000, thorough=200000)],
                    rule="a store is executed under single-stepping; the region is snapshot after every instruction that changed it, each snapshot is reopened, all other objects compared and the store repeated; three builds (g++ -O1, g++ -O0, clang++ -O2); non-trivial: at least two crash states",
                    require={"crash states": 50000, "interrupted updates": 500, "interrupted new stores": 500})
cxx("M01", "misc.cpp", [], 200000, 10000000,
    "chains of subspan/first/last with boundary offsets and counts on views of seven element types in exact heap blocks; every way to reach the elements compared; non-trivial: clipped or proper sub-range",
    {"views checked": 100000, "clipped": 10000, "subspan(offset)": 1000, "subspan(offset,count)": 1000, "first": 1000, "last": 1000, "text views": 1000, "arrays": 1000})
_e01 = dict(src=["misc.cpp"], lib=[])
PROPS["E01"] = dict(jobs=[dict(_e01, bin="e01", san="asan", quick=512, thorough=65536, fixed=True),
                          dict(_e01, bin="e01-clang", san=["-O2", "-fsanitize=undefined", "-fno-sanitize-recover=all"], cxx="clang++", quick=512, thorough=65536, fixed=True)],
                    rule="each execution converts a block of 65536 32-bit values (quick: 512 blocks, a third of them with structured upper halves; thorough: all 2^32 values) and all 16-bit values, compared with a byte-array reversal; every block is non-trivial",
                    require={"32-bit values": 60000000, "16-bit values": 65536})
cxx("G01", "misc.cpp", [], 300000, 20000000,
    "random operands (small, boundary and uniform) of three coordinate types; results compared with 128-bit arithmetic; non-trivial: asymmetric non-zero operands",
    {"operand sets": 50000, "conversions": 10000})
_g = ["core", "graphics"]
def _per_depth(what, n): return {"%s at depth %d" % (what, d): n for d in (1, 2, 4, 8, 16, 24, 32)}
cxx("F01", "graphics.cpp", _g, 40000, 2000000,
    "random pixels and colours on 40 frame buffer types (7 depths) holding random bytes; the whole image compared with a bit-exact model after each pixel; every case is non-trivial",
    dict(_per_depth("pixels", 1000), **{"drawn after clear": 1000, "colours with extra bits": 1000, "colours set through a canvas": 5000}))
cxx("F02", "graphics.cpp", _g, 12000, 600000,
    "creation in dirty memory, default colour, clears with random colours over random contents on 40 frame buffer types; with and without extra high colour bits; whole image compared; every case is non-trivial",
    dict(_per_depth("clears", 300), **{"clears with extra bits": 500}))
cxx("V01", "graphics.cpp", _g, 8000, 400000,
    "random shape of any kind, rotation and frame; every pixel call checked to be inside, the frame compared with the same window of a much larger frame; non-trivial: shape partly visible",
    {"partly visible": 500, "invisible": 100, "fully visible": 500, "frame buffer images compared": 300, "far away shapes": 50})
cxx("V02", "graphics.cpp", _g, 60000, 4000000,
    "random shape on a rotated canvas against the same on an unrotated one; lines against the ideal turned line; small shapes in frames of up to 2^20 pixels a side; rectangles transformed; non-trivial: something visible",
    {"rotated pixels": 500, "rotated lines": 500, "rotated rectangles": 500, "rotated filled rectangles": 500, "rotated circles": 500, "rotated filled circles": 500, "rotated texts": 500, "rectangles transformed": 10000, "frames of any size": 5000})
cxx("V03", "graphics.cpp", _g, 40000, 2000000,
    "every direction vector up to 60x60 (as far as the budget goes) and random lines, each drawn from both ends in large frames; every fourth a line of which the frame shows a part or one of up to 300000 pixels; exact rational distance test; non-trivial: oblique line",
    {"systematic directions": 14641, "oblique lines": 10000, "clipped lines": 2000, "partly visible lines": 500, "lines beyond 65535 pixels": 10})
cxx("V04", "graphics.cpp", _g, 30000, 2000000,
    "outline and filled rectangles of random position and size in all rotations, every pixel of the frame compared; half of them partly outside frames of any size; non-trivial: at least 3x3",
    {"filled": 5000, "outline": 5000, "empty": 500, "one pixel thin": 500, "partly visible": 3000, "large frames": 2000})
cxx("V05", "graphics.cpp", _g, 840, 10000,
    "every radius 0..419 (thorough 0..2499) in alternating rotations: ring and disc rasters checked for symmetry, extremes, connectivity, closure (flood fill) and distance; 21 rings of radius 2000..65536 pixel by pixel; non-trivial: radius above 1",
    {"circles": 800, "large circles": 15}, fixed=True, shards=16)
cxx("V06", "graphics.cpp", _g, 12000, 800000,
    "random well-formed 7 and 8 bit fonts (tables in exact heap blocks) and the shipped font; characters and strings at random positions and rotations; every frame pixel compared with the glyph bits; non-trivial: a visible glyph pixel",
    {"characters": 1000, "strings": 1000, "shipped font texts": 300, "glyph pixels": 100000, "parts of glyphs beyond 32767 pixels shown": 100})
cxx("V07", "graphics.cpp", _g, 6000, 300000,
    "random fonts with positive and negative bearings and the shipped font; string rendered at the reported origin and each pixel tested against the reported area, area tested against the glyph box extent; non-trivial: several characters with pixels",
    {"shipped font texts": 500, "random font texts": 2000, "empty texts": 50})
cxx("R01", "graphics.cpp", _g, 6000, 400000,
    "random well-formed 7 and 8 bit fonts in exact heap blocks, all 256 codes looked up and compared with the font as constructed; every case is non-trivial",
    {"absent codes": 10000, "8-bit codes": 10000, "7-bit codes": 10000, "codes beyond a short table": 500, "last glyphs": 1000, "shipped font lookups": 256})

# --- platform back-ends over simulated drivers
import os as _os
_mock = _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "harness", "mock")
_ard = dict(lib=["core", "arduino"], inc=[_mock, _os.path.join(_mock, "arduino")], flags=["-DVF_ARDUINO"], san="asan")
_esp = dict(lib=["core", "esp"], inc=[_mock, _os.path.join(_mock, "esp")], flags=["-DVF_ESP", "-DSIM_TICK_MS=10"], san="asan")
_esp1 = dict(_esp, flags=["-DVF_ESP", "-DSIM_TICK_MS=1"])


def both(id, src, quick, thorough, rule, require, ticks=False, **kw):
    """Same harness on the Arduino and the ESP-IDF back-end (the latter at 10 ms and, where time matters, 1 ms ticks)."""
    low = id.lower()
    jobs = [dict(_ard, bin=low + "-arduino", src=[src], quick=quick, thorough=thorough),
            dict(_esp, bin=low + "-esp", src=[src], quick=quick, thorough=thorough)]
    if ticks:
        jobs.append(dict(_esp1, bin=low + "-esp-1ms", src=[src], quick=quick // 2, thorough=thorough // 2))
    PROPS[id] = dict(jobs=jobs, rule=rule, require=require, **kw)


both("U01", "uart.cpp", 40000, 2000000,
     "random line traffic (bursts, gaps, start/end bytes anywhere) and sequences of up to 7 receive calls of all three kinds on a simulated port with virtual clock; returned bytes compared with the line, histories drained at the end; non-trivial: bytes were returned",
     {"receive calls": 50000, "bytes returned": 50000, "drained histories": 10000, "bytes before a start byte discarded": 5000, "Receive": 1000, "ReceiveUntil": 1000, "ReceiveBetween": 1000})
both("U02", "uart.cpp", 40000, 2000000,
     "as U01; the position at which each framed call stopped is compared with the first end byte on the line; non-trivial: bytes were returned",
     {"ended with the end byte": 5000, "ended for lack of room": 2000, "ended by time": 2000, "bytes before a start byte discarded": 5000})
both("U03", "uart.cpp", 12000, 600000,
     "receive calls with limits of 1..65535 ms at clock values around the roll-over of the millisecond counter, with sparse, bursty and continuous unrelated traffic and preemption; virtual time of return compared with the limit; non-trivial: bytes returned or counter rolled over",
     {"time ran out": 5000, "calls across the clock's roll-over": 1000, "continuous noise": 1000, "preempted calls": 500}, ticks=True)
both("U04", "uart.cpp", 60000, 3000000,
     "receive calls into exact heap blocks of 0..9 bytes with driver errors injected; non-trivial: bytes were returned",
     {"tiny buffers": 20000, "calls with a driver error": 2000, "bytes returned": 20000})
both("U05", "uart.cpp", 40000, 2000000,
     "random sends with complete, partial and failing drivers between receives; wire, returned count, the transmitter at the return and port settings compared; non-trivial: bytes were sent",
     {"complete sends": 10000, "failed sends": 5000, "partial sends": 5000, "settings compared": 20000, "receives between": 10000})
both("O01", "uart.cpp", 30000, 1500000,
     "random messages (text, all integer types, floats, bytes) through serial streams of capacity 1..140000, ended by end or endl; wire compared per message; non-trivial: something was sent",
     {"messages": 50000, "lines": 20000, "full buffers": 5000, "exact messages": 10000, "messages beyond 64 KiB": 20, "messages cut by the port": 5000})
_dbg = dict(src=["debuglog.cpp", "debuglog_off.cpp"], quick=20000, thorough=1000000)
PROPS["O02"] = dict(jobs=[dict(_ard, bin="o02-arduino", **{**_dbg, "flags": _ard["flags"] + ["-DDEBUG_SERIAL_OUT", "-fno-sanitize=vptr"]}),
                          dict(_esp, bin="o02-esp", **{**_dbg, "flags": _esp["flags"] + ["-DDEBUG_SERIAL_OUT"]})],
                    rule="random DEBUG_LOG statements of a debug build (text around the line buffer's size, numbers, bytes, floats after other precisions, failing ports) on both back-ends, with release-build statements beside them; wire per statement, evaluation counts and other ports compared; non-trivial: a line was sent",
                    require={"lines": 50000, "lines cut at the buffer's size": 1000, "lines filling the buffer": 100, "lines cut by the port": 5000, "release statements": 20000})
both("P01", "board.cpp", 30000, 1500000,
     "random transfers of 0..65535 bytes from and to exact heap blocks at odd addresses over a simulated bus (ESP: half and full duplex, with driver failures); bus traffic and buffers compared byte by byte; non-trivial: at least one byte",
     {"send": 10000, "receive": 5000, "exchange": 10000, "odd lengths": 10000, "beyond the largest transaction": 500, "driver failures": 1000})
both("P02", "board.cpp", 40000, 3000000,
     "Arduino: transaction bracketing and settings of random transfers; ESP: random lives of a bus object (init with failing driver calls, transfer, release, destruction, re-use) against a driver resource table; non-trivial: a resource was granted",
     {"transactions": 50000, "failed initialisations": 5000, "releases": 5000, "destroyed while ready": 5000, "configurations compared": 20000, "failed releases": 500, "releases completed after a failure": 500, "destroyed after a failed release": 300, "transfers refused": 2000, "empty transfers without memory": 2000})
both("P03", "board.cpp", 20000, 1500000,
     "2..6 devices with chip selects of their own on one or two SPI buses (ESP: half and full duplex, with driver failures and re-initialised buses), used in random order, within each other on other buses and left by exceptions; 2..6 devices on one or two I2C buses; what every simulated device was sent and what it answered compared after every transfer; non-trivial: bytes were transferred",
     {"transfers": 20000, "bytes clocked": 1000000, "sessions within a session of another bus": 1000, "sessions left by exception": 1000, "driver failures": 500, "bus objects shared": 1000, "buses set up again": 300, "I2C operations": 20000})
both("I01", "board.cpp", 40000, 2000000,
     "random sends, receives and combinations to present/absent devices acknowledging or delivering fewer bytes than asked, bus faults; result, addresses, bytes, order compared; non-trivial: an operation succeeded",
     {"send": 10000, "receive": 10000, "send-then-receive": 10000, "successes": 20000, "failures": 20000, "sends failed before a receive": 5000})
both("H01", "board.cpp", 40000, 2000000,
     "random pin, UART and I2C set-ups, probes and resets with failing driver calls; the driver's view compared with the request; non-trivial: a set-up took place",
     {"pins": 20000, "invalid pins": 1000, "UARTs": 5000, "I2C buses": 5000, "probes": 20000, "bus resets": 5000, "driver failures": 3000, "probes answered": 5000, "probes unanswered": 5000})
both("D01", "board.cpp", 20000, 1500000,
     "random pins and operations, nested chip selectors left normally and by exceptions; levels of all 256 pins compared after every step; non-trivial: a selection took place",
     {"sets": 10000, "resets": 10000, "set(level)": 10000, "reads": 10000, "selections": 20000, "left by exception": 5000})
both("A01", "board.cpp", 20000, 1500000,
     "up to 20 reads of random pins with changing inputs, failing driver calls and units held by others; value and claimed units compared after each; non-trivial: a value was read",
     {"reads": 100000, "pins without a channel": 10000, "driver failures": 10000, "units held by others": 1000, "values compared": 50000})
both("L01", "board.cpp", 40000, 2000000,
     "delays, sleeps and readings at clock values around the roll-over, with preemption, refused and early-ended sleeps on a virtual clock; non-trivial: time was waited or read",
     {"delays": 10000, "microsecond delays": 5000, "light sleeps": 3000, "deep sleeps": 3000, "refused sleeps": 500, "early wake-ups": 500, "across the millisecond roll-over": 3000, "preempted": 1000}, ticks=True)

# --- whole-library properties
import special as _special
_n01 = dict(src=["memory.cpp"], san=["-O1", "-g", "-fno-builtin-malloc"], quick=40000, thorough=2000000)
PROPS["N01"] = dict(jobs=[dict(_ard, bin="n01-arduino", **{**_n01, "lib": ["core", "graphics", "arduino"]}),
                          dict(_esp, bin="n01-esp", **{**_n01, "lib": ["core", "graphics", "esp"]})],
                    rule="every library call of random workloads over all parts runs with malloc, calloc, realloc, free and operator new/delete intercepted (driver stand-ins excluded); non-trivial: library calls were made",
                    require={"library calls": 500000, "calls in text": 20000, "calls in storage": 20000, "calls in canvas": 20000, "calls in values": 5000, "calls in serial": 20000, "calls in board": 20000, "calls in bus": 5000})
_n02 = dict(src=["independence.cpp"], quick=1500, thorough=100000, wall=850)
_tsan = ["-O1", "-g", "-fsanitize=thread", "-fno-sanitize-recover=all"]
PROPS["N02"] = dict(jobs=[dict(_ard, bin="n02-arduino", **{**_n02, "lib": ["core", "graphics", "arduino"], "san": ["-O0"] + _tsan[1:]}),
                          dict(_esp, bin="n02-esp", **{**_n02, "lib": ["core", "graphics", "esp"], "san": _tsan}),
                          dict(_ard, bin="n02-asan", **{**_n02, "lib": ["core", "graphics", "arduino"]})],
                    rule="2..6 independent objects each run alone, then interleaved operation by operation in one thread (even cases) or one thread per object with shared read-only objects (odd cases, under ThreadSanitizer); digests compared with those of a process that never used any other object; non-trivial: every case",
                    require={"interleavings": 1000, "interleaved operations": 10000, "parallel runs": 1000, "threads": 3000})
PROPS["N03"] = dict(py=_special.n03,
                    rule="the same seeded calls executed by six builds of the library (g++ -O0/-O2/-O3/-Os, clang++ -O0/-O2, signed and unsigned char); per-case digests of all texts, images, storage regions and results compared; non-trivial: every case",
                    require={"operations": 100000, "digests compared with gcc-O2": 50000, "cases: text": 1000, "cases: storage": 1000, "cases: canvas": 1000, "cases: values": 300})

cxx("N04", "queries.cpp", ["core", "graphics"], 30000, 1500000,
    "twin objects (texts, stores, canvases over five frame types, views) live through the same random operations, one of them is asked everything in between; digests compared after every operation, questions asked twice; objects read from and texts drawn out of write-protected memory; non-trivial: every case with operations or objects",
    {"rounds of questions": 200000, "operations compared": 100000, "cases: text": 2000, "cases: storage": 2000, "cases: canvas": 2000, "cases: values": 500, "objects read from protected memory": 10000, "texts drawn with a protected font": 2000})
_n05 = dict(src=["copies.cpp"], quick=25000, thorough=1200000)
PROPS["N05"] = dict(jobs=[dict(_ard, bin="n05-arduino", **{**_n05, "lib": ["core", "graphics", "arduino"]}),
                          dict(_esp, bin="n05-esp", **{**_n05, "lib": ["core", "graphics", "esp"]})],
                    rule="an object of any part and a twin live through the same random operations, the twin is replaced by copies of itself (constructed or assigned, at another address, the original destroyed and its memory overwritten, or drawn on) in between; digests compared after every operation, kept copies of frame buffers compared in the end; non-trivial: copies were made",
                    require={"operations compared": 300000, "copies": 200000, "copies of text": 20000, "copies of storage": 20000, "copies of canvas": 20000, "copies of serial": 5000, "copies of board": 5000})

_n06 = dict(src=["leftover.cpp"], san=["-O0", "-g", "-fsanitize=undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"], quick=12000, thorough=600000)
PROPS["N06"] = dict(jobs=[dict(_ard, bin="n06-arduino", **{**_n06, "lib": ["core", "graphics", "arduino"]}),
                          dict(_esp, bin="n06-esp", **{**_n06, "lib": ["core", "graphics", "esp"]})],
                    rule="the same operations on objects of any part done five times, the objects' memory holding zeros, ones, 0xA5, words of a small number or anything before construction and the stack overwritten with it before every call; digests of all texts, images, regions, results, bus bytes and fields of the structures handed to drivers compared after every operation, unoptimised builds with undefined-behaviour checks; non-trivial: every case",
                    require={"operations compared": 100000, "times the stack was overwritten": 500000, "driver calls failed": 300, "cases: text": 1000, "cases: storage": 1000, "cases: canvas": 1000, "cases: values": 300, "cases: serial": 500, "cases: board": 500, "cases: bus": 200, "cases: setup": 200})

_n07 = dict(src=["stack.cpp"], san=["-O1", "-g"], ldflags=["-static"], quick=12000, thorough=600000)
PROPS["N07"] = dict(jobs=[dict(_ard, bin="n07-arduino", **{**_n07, "lib": ["core", "graphics", "arduino"]}),
                          dict(_esp, bin="n07-esp", **{**_n07, "lib": ["core", "graphics", "esp"]})],
                    rule="every library call of random workloads over all parts (texts and byte lists to 70000, paddings as wide, hundreds of objects in a region, lines across large frames, packets and transfers of thousands of bytes) runs on a painted stack of its own with a guard page; the depth reached, driver stand-ins included, stays below 3072 bytes; non-trivial: library calls were made",
                    require={"library calls": 300000, "calls in text": 20000, "calls in storage": 20000, "calls in canvas": 20000, "calls in values": 3000, "calls in serial": 20000, "calls in board": 20000, "calls in bus": 3000,
                             "calls in large text": 10000, "calls in many objects": 200000, "calls in long lines": 15000, "calls in long packets": 8000})

_n08 = dict(src=["effort.cpp"], quick=8000, thorough=300000)
_tpc = ["-fsanitize-coverage=trace-pc"]
_plain = ["-O1", "-g", "-U_FORTIFY_SOURCE"]
PROPS["N08"] = dict(jobs=[dict(_ard, bin="n08-core", **{**_n08, "lib": ["core", "graphics"], "san": _plain + _tpc}),
                          dict(_ard, bin="n08-arduino", **{**_n08, "lib": ["core", "arduino"], "san": _plain, "libflags": _tpc, "flags": _ard["flags"] + ["-DVF_DEVICES"]}),
                          dict(_esp, bin="n08-esp", **{**_n08, "lib": ["core", "esp"], "san": _plain, "libflags": _tpc, "flags": _esp["flags"] + ["-DVF_DEVICES"]})],
                    rule="calls of all parts with arguments from nothing to tens of thousands of bytes, pixels or objects (widths, precisions and coordinates far beyond them); blocks executed by the library and bytes touched by its memory functions counted, driver calls too; non-trivial: calls were bounded",
                    require={"calls bounded": 100000, "driver calls bounded": 15000, "large: text << string": 200, "large: text << bytes": 200, "large: text << padded int": 100, "large: text << float": 100, "large: load": 200, "large: store": 200, "large: store new": 3000, "large: region reopen": 200, "large: line": 500, "large: rectangle": 300, "large: filled rectangle": 300, "large: circle": 200, "large: text": 200, "large: text bounds": 200, "large: uart send": 500, "large: uart receive": 500, "large: uart until": 500, "large: uart between": 500, "large: serial end": 500, "large: spi send": 500, "large: spi exchange": 500})

# --- font converter (the real program, its main renamed and run in a forked process of its own)
import subprocess as _sp, vfrun as _vf
_ftinc = ["/usr/include/freetype2"]
_conv = dict(src=["converter.cpp"], lib=["core", "converter"], inc=_ftinc, libflags=["-Dmain=vf_converter_main"], ldflags=["-lfreetype"],
             data="%s;%s" % (_vf.REPO, _vf.VERIF), wall=850)
cxx("K01", **{k: v for k, v in _conv.items() if k not in ("src", "lib")}, src=_conv["src"], libs=_conv["lib"], quick=1500, thorough=60000,
    rule="generated outline and bitmap fonts and shipped fonts, random size, resolution, 49 character sets; header and binary output decoded and compared pixel by pixel with an independent rendering (bitmap fonts: with the pixels as generated); non-trivial: both outputs were produced",
    require={"header and binary compared": 800, "glyphs compared": 100000, "8-bit character sets": 300, "bitmap fonts": 150, "outline fonts": 150, "shipped fonts": 150})
cxx("K02", **{k: v for k, v in _conv.items() if k not in ("src", "lib")}, src=_conv["src"], libs=_conv["lib"], quick=3000, thorough=120000,
    rule="missing, damaged and oversized fonts, extreme and malformed numbers, character sets of any kind, obstructed destinations (directory in place, full device, file size limit), odd command lines; sanitizers and exit status watched, successful output compared with an independent rendering; non-trivial: a fault or extreme was exercised",
    require={"missing fonts": 100, "damaged fonts": 200, "extreme sizes": 200, "malformed numbers": 100, "other character sets": 100, "failing destinations": 50, "odd command lines": 100, "unrepresentable fonts refused": 50, "fonts compared": 300})
cxx("K05", **{k: v for k, v in _conv.items() if k not in ("src", "lib")}, src=_conv["src"], libs=_conv["lib"], quick=200, thorough=3000,
    rule="headers generated from fonts of various names, sizes and character sets are compiled with the library (g++, clang++), a program draws every character with them, images compared with an independent rendering; a quarter embeds the binary output instead; non-trivial: texts with pixels were compared",
    require={"headers compiled": 60, "binary output embedded": 15, "texts compared": 500, "pixels compared": 50000})
PROPS["K06"] = dict(jobs=[dict({k: v for k, v in _conv.items()}, bin="k06", san="asan", quick=400, thorough=20000),
                          dict({k: v for k, v in _conv.items()}, bin="k06-plain", san=["-O1", "-g", "-DVF_MEMCHECK"], quick=1200, thorough=60000)],
                    rule="each conversion is repeated up to three times from other directories, through relative paths and links, over longer and shorter old files, with options in other order and spelling, other locales and environments, other contents of fresh memory; exit code and files compared byte by byte, everything else in the directories compared; some runs under valgrind memcheck; non-trivial: the conversion succeeded",
                    require={"outputs compared": 1500, "longer files overwritten": 300, "other environments": 500, "runs under memcheck": 40, "refusals compared": 20})
cxx("K07", **{k: v for k, v in _conv.items() if k not in ("src", "lib")}, src=_conv["src"], libs=_conv["lib"], quick=1500, thorough=60000,
    rule="random fonts and option sets in every documented spelling (short, joined, long, long with =) and order, omitted options, help; the program started by absolute and relative path and by its bare name through PATH; output decoded and compared with the independent rendering under the options asked for, files only where asked for; non-trivial: a conversion succeeded or help was asked for",
    require={"joined options": 1000, "long options": 1000, "long options with =": 1000, "default size": 100, "default resolution": 100, "default character set": 100, "default directory": 200, "binary output": 200, "default format": 300, "help": 50, "started by a relative path": 200, "started by the bare name": 60, "fonts compared": 500})
_cu = dict(inc=_ftinc, libflags=["-Dmain=vf_converter_main"], ldflags=["-lfreetype"])
cxx("K03", "convunits.cpp", ["core", "converter"], 60000, 4000000,
    "random histories of bits, bytes and flushes; bytes compared with a bit vector after every operation; non-trivial: a byte was written at a bit position",
    {"bits": 100000, "bytes": 100000, "bytes at a bit position": 50000, "padded flushes": 10000, "bytes compared": 100000}, **_cu)
cxx("K04", "convunits.cpp", ["core", "converter"], 24000, 1000000,
    "random character histories in 49 8-bit code pages (tables from Python's codecs), UTF-8/16/32 (own encoder) and nine CJK encodings, with undefined and invalid bytes in between; every byte's result compared; non-trivial: every history",
    {"raw characters": 50000, "text characters": 50000, "8-bit histories": 5000, "multi-byte histories": 5000, "invalid bytes": 5000, "2 bytes": 10000, "3 bytes": 5000, "4 bytes": 5000}, **_cu)
