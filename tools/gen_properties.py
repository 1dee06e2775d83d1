#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; `python3 tools/gen_properties.py` rewrites the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})

# ---------------------------------------------------------------- text output
p("T01", "Text buffer holds exactly what was written, in order, cut at capacity",
  "After any sequence of writes of strings, characters, integers, single bytes and byte blocks, a text buffer of any size holds exactly the in-order concatenation of their renderings (strings as they are, integers in decimal, bytes as two upper-case hex digits each). When room runs out, strings are cut at the capacity while integers (with their padding) and hex bytes appear whole or not at all, and nothing written earlier is ever altered. Clearing empties the buffer and resets width, fill and precision.",
  ["inputs", "histories"], "every buffer capacity, every sequence of writes/format directives/clears, every value",
  "The tests write one or two short items into a 128 byte buffer that never fills; they reach neither the full-buffer cases nor long mixed histories.",
  ["BufferedOut.h", "BufferedOut.cpp"],
  [("append/addChar copy with an end check", "BufferedOut.cpp:append, BufferedOut.h:addChar"), ("to_chars with [pos,end) and position update", "BufferedOut.cpp:operator<<"), ("byte-block halving of the available room", "BufferedOut.cpp:operator<<(ConstBytesView)")],
  ["asStringView()", "data()", "size()", "capacity()"],
  [("pos", "write position", "BufferedOut.h"), ("integerWidth/fillChar/floatPrecision", "format state", "BufferedOut.h")])
p("T02", "Text output never touches memory outside its buffer",
  "Whatever is written (any strings, numbers, widths, fills, precisions, byte blocks, in any order and however full the buffer is), no byte outside the caller's buffer is read or written, the reported size never exceeds the capacity, and every view of the content reports the same bytes and length.",
  ["inputs", "histories"], "every capacity from 0 up (including more than 64 KiB), every write sequence, every width/precision",
  "No test fills a buffer, uses a width wider than the remaining room, or runs under a memory checker.",
  ["BufferedOut.h", "BufferedOut.cpp"],
  [("room checks before each store", "BufferedOut.cpp, BufferedOut.h:addChar"), ("padding move", "BufferedOut.cpp:addPadding"), ("views over the written part", "BufferedOut.h:data/asStringView")],
  ["red zones around the buffer", "size()", "data()", "asStringView()"])
p("T03", "Integers of every width print exactly, padded but never shortened",
  "Every signed and unsigned integer value of every supported type is printed as its exact decimal text. A requested field width pads on the left with the current fill character up to that width and never drops a digit; it applies to the next integer only, while the fill character stays in force.",
  ["inputs", "histories"], "every value of int/unsigned/long/unsigned long/long long/unsigned long long, every width and fill",
  "Seven sample values, one of them padded, and no value wider than its field.",
  ["BufferedOut.h", "BufferedOut.cpp"],
  [("std::to_chars per type", "BufferedOut.cpp"), ("addPadding/adjustPos", "BufferedOut.cpp")],
  ["asStringView()"])
p("T04", "Floats print within one unit of the last requested digit",
  "A finite float whose integer part fits the integer range is printed as an optional sign, the integer digits and exactly the requested number of fraction digits (no point when zero digits are requested), and that decimal differs from the value by no more than one unit of its last printed digit (plus float rounding); negative values keep their sign whenever a non-zero digit is printed. Any other float value (not a number, infinite, or beyond the integer range) is handled without undefined behaviour and without printing a wrong number.",
  ["inputs"], "every float bit pattern, precisions 0..9, buffers with and without room for all digits",
  "One value (123.456 with precision 2) is tested; signs of small negatives, rounding at digit carries and special values are not.",
  ["BufferedOut.cpp"], [("toChars digit extraction", "BufferedOut.cpp:toChars")], ["asStringView()"])
# ---------------------------------------------------------------- views
p("M01", "Sub-views designate exactly the requested elements and stay inside",
  "For every view and every offset and count, taking a sub-range, a prefix or a suffix yields exactly the requested elements clipped to the view (empty when the offset is past the end), sharing the same memory. Iteration forwards and backwards, indexing, first/last element, emptiness, sizes in elements and bytes, byte views and conversions to constant or text views all agree about the same elements.",
  ["inputs", "histories"], "every element type, view length, offset and count (including npos and huge values), every composition of such operations",
  "The tests use one five-element array and a handful of offsets; compositions, zero lengths and huge counts are not reached.",
  ["MemoryView.h"], [("subspan/first/last clipping", "MemoryView.h"), ("converting constructors", "MemoryView.h")], ["begin()/end()/size()/operator[]"])
# ---------------------------------------------------------------- persistent storage
p("S01", "Stored objects are returned unchanged until overwritten",
  "For any history of stores and loads, loading an object by its name and size returns exactly the bytes of the last successful store under that name and size, at whatever position it lies in the region, and returns nothing if there was none. A store that reports success is always loadable, and storing or loading one object never changes any other.",
  ["histories", "inputs"], "every sequence of set/get over names of 0..4 and more characters, object sizes and region sizes/alignments",
  "The tests store at most three objects, one history each, always in a roomy aligned region.",
  ["PersistentStorage.h", "PersistentStorage.cpp"],
  [("record chain walk", "PersistentStorage.h:getIdx"), ("append and in-place update", "PersistentStorage.h:set")],
  ["set()/get() results", "the region's bytes"], [("free_head_", "end of the used part", "PersistentStorage.h")])
p("S02", "Reopening a region restores every stored object",
  "At any point of any history, opening the same bytes again without initialisation (in place or copied to another address) gives a storage that returns the same object for every name and size, has the same free room, and continues the history exactly as the original would have. Opening with initialisation erases every byte of the region and everything stored in it.",
  ["histories", "configurations"], "every history, every reopening point (including a region filled to its last byte), any number of reopenings",
  "One reopening after a single store is tested.",
  ["PersistentStorage.cpp", "PersistentStorage.h"], [("chain scan on open", "PersistentStorage.cpp constructor"), ("record header", "PersistentStorage.h:NodeDescriptor")],
  ["get() on the reopened storage", "set() success on the reopened storage"])
p("S03", "Storage stays inside its region and refuses exactly what does not fit",
  "No operation reads or writes a byte outside the region it was given. A new object is accepted exactly when the free room is at least its size plus the fixed, published per-object overhead (its size within what a record can describe and its name at most four characters), and a refused store leaves every byte of the region unchanged.",
  ["histories", "inputs"], "every region size from 0 up, every fill level including exact fit and one byte short",
  "Only one too-small region is tested, with one object; exact fit and refusal side effects are not.",
  ["PersistentStorage.h", "PersistentStorage.cpp"], [("room check before append", "PersistentStorage.h:set"), ("bounded scan", "PersistentStorage.cpp constructor")],
  ["red zones around the region", "set() result", "region bytes before/after a refusal"])
p("S04", "Opening arbitrary or damaged bytes is safe and stays usable",
  "Opening a region with arbitrary or damaged contents, without initialisation, always terminates and never touches memory outside the region. On such a region loads always terminate, a successful store is immediately loadable with the same bytes, and a store never changes the result of loading anything else.",
  ["inputs", "fault_sequences"], "every byte content of the region: random bytes, truncated images, and bit/byte corruptions of real images",
  "No test opens a region that was not written by the library itself.",
  ["PersistentStorage.cpp", "PersistentStorage.h"], [("validity conditions of the scan", "PersistentStorage.cpp constructor"), ("chain walk", "PersistentStorage.h:getIdx")],
  ["red zones", "termination within a bound", "get()/set() results"])
p("S05", "An interrupted store never damages other stored objects",
  "If execution stops at any instant during a store (power loss, reset) and the region is reopened, every other object stored before is still loaded unchanged, and the interrupted store can be repeated successfully.",
  ["crash_points", "histories"], "every machine instruction of every store (new object, update) in any history",
  "Tests never stop a store midway.",
  ["PersistentStorage.h"], [("new records are written beyond the used part; updates only touch the object's own bytes", "PersistentStorage.h:set")],
  ["region snapshots after every instruction of a store, reopened"])
# ---------------------------------------------------------------- endian / geometry
p("E01", "Byte-order conversions reverse bytes exactly for every value",
  "For every 16-bit value and every 32-bit value the conversion reverses the byte order (per 16-bit half for the paired variant, keeping the halves in place), converting twice restores the value, and the float variant yields the float whose bit pattern is the reversed input.",
  ["inputs"], "all 2^16 and 2^32 values",
  "Two or three sample values per function.",
  ["EndianConversion.h"], [("shift-and-mask expressions", "EndianConversion.h")], ["return values"])
p("G01", "Geometry arithmetic is exact for every operand",
  "Adding, subtracting, scaling and dividing sizes, moving points and rectangles, comparing points, multiplying by a matrix and converting between coordinate types are exact componentwise operations, and a rectangle's corners are those of the pixels it covers. The compound and the plain forms agree and operands are left unchanged.",
  ["inputs"], "all component values whose results are representable, coordinate types of different width",
  "One sample value per operator.",
  ["graphics/BaseGeometry.h"], [("operators", "graphics/BaseGeometry.h")], ["return values"])
# ---------------------------------------------------------------- frame buffer
p("F01", "Setting a pixel changes that pixel only, to the selected colour",
  "At every colour depth, setting a pixel inside the frame stores the selected colour in that pixel's own bits, in the packed row-major, most-significant-first layout of the image, and leaves every other bit of the image as it was.",
  ["inputs", "histories", "configurations"], "every depth (1,2,4,8,16,24,32), frame size, pixel position, colour and previous image",
  "Only the 1-bit depth is ever instantiated, and only by comparing finished pictures.",
  ["graphics/SimpleFrameBuffer.h"], [("pixel offset and mask/shift per depth", "graphics/SimpleFrameBuffer.h:drawPixel"), ("colour masking", "graphics/SimpleFrameBuffer.h:setColor")],
  ["getImage() before/after"], [("selectedColor", "current colour", "graphics/SimpleFrameBuffer.h")])
p("F02", "Frame buffers have the declared size and clear uniformly",
  "At every colour depth a frame buffer reports the declared width and height, its image is exactly width x height x depth bits long, and clearing with a colour gives every pixel that colour, whatever the image contained. A freshly created frame buffer draws with the brightest colour of its depth.",
  ["inputs", "configurations"], "every depth and byte-aligned frame size, every colour",
  "Only 1-bit frames are instantiated.",
  ["graphics/SimpleFrameBuffer.h"], [("effectiveWidth/bufferSize", "graphics/SimpleFrameBuffer.h"), ("clear", "graphics/SimpleFrameBuffer.h:clear")], ["getWidth()/getHeight()/getImage()"])
# ---------------------------------------------------------------- canvas
p("V01", "Drawing is clipped: never outside the frame, exactly the visible part",
  "Whatever is drawn, wherever it lies, the canvas only ever sets pixels inside the frame; the visible result is exactly the part of the full shape that falls inside it, i.e. what a larger frame would show in that window.",
  ["inputs", "configurations"], "every shape, position (inside, crossing any edge or corner, entirely outside), size, rotation and frame size",
  "All tested shapes lie inside the frame.",
  ["graphics/Canvas.h", "graphics/Canvas.cpp"], [("setIfVisible", "graphics/Canvas.h"), ("clamping of filled rectangles", "graphics/Canvas.cpp:drawFilledRectangle")], ["calls reaching the frame buffer interface", "the image"])
p("V02", "A rotated canvas shows the same drawing, rotated",
  "With the canvas turned by 90, 180 or 270 degrees, pixels, rectangles, circles and text appear exactly as the unrotated drawing turned by that angle, lines within half a pixel of it, and the reported canvas size and transformed rectangles are turned accordingly.",
  ["inputs", "configurations"], "every rotation, shape, position and frame size, including rotation changes between shapes",
  "Four fixed pictures with one arrangement of shapes each.",
  ["graphics/Canvas.h", "graphics/Canvas.cpp"], [("transformCoords", "graphics/Canvas.cpp"), ("getTransformMatrix/getShifts", "graphics/Canvas.cpp")], ["image", "getSize()", "transformCoords(Rect)"])
p("V03", "Lines join their end points with no gaps and no strays",
  "A line covers both end points, has exactly one pixel per step along its longer extent, is gap-free (consecutive pixels touch), and no pixel is further than half a pixel from the ideal segment; drawing it from either end gives the same pixels.",
  ["inputs"], "all pairs of end points (any slope, direction and length), every rotation",
  "Three pictures with a dozen lines.",
  ["graphics/Canvas.cpp"], [("Bresenham loop and axis-aligned shortcuts", "graphics/Canvas.cpp:drawLine")], ["set of pixels set"])
p("V04", "Rectangles cover exactly their border, filled ones exactly their area",
  "An outline rectangle sets exactly the border pixels of the area it describes, a filled one exactly the pixels of the area; an empty area (zero width or height) sets nothing.",
  ["inputs"], "every position, size (including 0, 1 and larger than the frame) and rotation",
  "A few inner rectangles of ordinary size.",
  ["graphics/Canvas.cpp", "graphics/BaseGeometry.h"], [("four edges", "graphics/Canvas.cpp:drawRectangle"), ("clamped row fill", "graphics/Canvas.cpp:drawFilledRectangle"), ("corner arithmetic", "graphics/BaseGeometry.h")], ["set of pixels set"])
p("V05", "Circles are closed, symmetric and true to the radius",
  "For every radius, the pixels of a circle are mirror-symmetric about its centre, include the four extreme points, form a closed gap-free ring, and each lies within one pixel of the ideal circle; a filled circle is that ring plus everything inside it and nothing else.",
  ["inputs"], "every radius from 0 up and every centre, filled or not, every rotation",
  "Two radii.",
  ["graphics/Canvas.cpp"], [("Bresenham circle loop", "graphics/Canvas.cpp:drawCircle")], ["set of pixels set"])
p("V06", "Text shows each character's glyph bits at its pen position",
  "Drawing a character sets exactly the pixels whose bits are set in the font's bitmap for that character, placed by the glyph's offset, and returns the glyph's advance; drawing a string is drawing its characters one after another, each advanced by its predecessors' widths.",
  ["inputs", "configurations"], "every character code, string, position, rotation and every well-formed font",
  "One string in one font.",
  ["graphics/Canvas.cpp", "graphics/Canvas.h"], [("bit walk", "graphics/Canvas.cpp:drawCharAt"), ("pen advance", "graphics/Canvas.h:drawStringAt")], ["set of pixels set", "returned advance"])
p("V07", "A string's reported bounds contain all its pixels",
  "For every font and non-empty string, drawing the string at the reported origin puts every pixel inside the reported width and height, and the reported height and width are no larger than the extent of the drawn glyph boxes, the pen start and the base line require. An empty string has empty bounds.",
  ["inputs", "configurations"], "every string and well-formed font",
  "Text bounds are not tested at all.",
  ["graphics/EmbeddedFont.cpp"], [("extent accumulation", "graphics/EmbeddedFont.cpp:getTextBounds")], ["getTextBounds() against rendered pixels"])
p("R01", "Character lookup returns the right glyph, or the first one",
  "For every character code and every font, the returned bitmap, size, offset and advance are those of that character; codes the font does not contain (below its first, above its last, or in the gap 0x7F..0x9F that 8-bit fonts omit) give the font's first character. The returned bitmap always lies inside the font's data and holds all bits of the glyph, and no lookup reads outside the font's tables.",
  ["inputs", "configurations"], "all 256 codes, every well-formed 7-bit and 8-bit font, the shipped font",
  "Only the letters of one string are looked up, in the one 7-bit font, without a memory checker.",
  ["graphics/EmbeddedFont.cpp", "graphics/GFXFontsAdapter.h", "graphics/EmbeddedFonts.cpp"], [("range check, gap correction, bitmap end computation", "graphics/EmbeddedFont.cpp:getBitmap")], ["returned descriptor", "red zones around font tables"])
# ---------------------------------------------------------------- UART
p("U01", "Packet reception returns line bytes in order, none lost or invented",
  "On both platform back-ends, every byte any receive call returns arrived on the line, in arrival order, exactly once; bytes a call did not consume are returned by later calls. Only the bytes before the start byte are discarded, and only by the start/end framed receive.",
  ["inputs", "histories", "schedules"], "every byte stream, arrival timing, buffer size and sequence of receive calls",
  "The hardware back-ends have no tests at all.",
  ["arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp", "PacketUart.h"],
  [("byte loops over the driver", "arduino/PacketUart.cpp, esp32-esp-idf/PacketUart.cpp")], ["driver-level byte log against returned buffers"])
p("U02", "Framed receive stops exactly at the packet's end byte",
  "Receive-until returns everything up to and including the first end byte and nothing after it; receive-between returns the first start byte on the line and what follows up to and including the first end byte after it. When time or room runs out first, what arrived so far is returned (for receive-between nothing unless the start byte came) and it does not end with an end byte that was not received.",
  ["inputs", "schedules"], "every stream, start/end byte values (also equal), buffer sizes, timings",
  "The hardware back-ends have no tests at all.",
  ["arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp"], [("end byte comparison", "arduino/PacketUart.cpp, esp32-esp-idf/PacketUart.cpp")], ["returned buffers against the driver-level byte log"])
p("U03", "Receive time limits are honoured at every clock value",
  "With a time limit, a receive call never gives up before the limit has passed (to driver tick resolution) while it still lacks data (a plain receive without one waits 200 ms), and returns no later than the limit after the call or after the last byte it accepted, even if unrelated bytes keep arriving. This holds at every value of the millisecond counter, including when it rolls over during the call.",
  ["schedules", "inputs", "configurations"], "every counter value at call time, limit, arrival timing and tick period",
  "The hardware back-ends have no tests, and a rollover takes 49 days on a device.",
  ["arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp"], [("deadline arithmetic", "arduino/PacketUart.cpp, esp32-esp-idf/PacketUart.cpp")], ["virtual clock at call and return"])
p("U04", "Receiving never overruns the buffer or reports more than was stored",
  "No receive call writes outside the given buffer, whatever its size (including 0, 1 and 2), and the reported count never exceeds the buffer size or the bytes actually stored; a driver error is never reported as received data.",
  ["inputs", "fault_sequences", "schedules"], "every buffer size, stream, timing and driver failure pattern",
  "The hardware back-ends have no tests at all.",
  ["arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp"], [("size checks", "arduino/PacketUart.cpp, esp32-esp-idf/PacketUart.cpp"), ("driver result handling", "esp32-esp-idf/PacketUart.cpp")], ["red zones", "returned counts"])
p("U05", "Sending delivers the bytes in order and reports what was accepted",
  "A send hands the given bytes to the driver in order exactly once and returns the number accepted; a failed send is not reported as bytes sent. When a send returns, the accepted bytes have left the port. Port settings such as the stream time-out are the same after any send or receive call as before it.",
  ["inputs", "fault_sequences"], "every data, length, driver acceptance and failure pattern",
  "The hardware back-ends have no tests at all.",
  ["arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp"], [("write + wait/flush", "arduino/PacketUart.cpp:Send, esp32-esp-idf/SimpleUartDevice.cpp:sendBlocking"), ("time-out save/restore", "arduino/PacketUart.cpp")], ["driver-level byte log", "return value", "driver settings"])
p("O01", "Serial output puts each message on the wire once, complete",
  "Everything written to a serial output stream goes to the port exactly once and in order when the message is ended, cut only where the message exceeds the stream's buffer; ending a line always transmits its newline even when the buffer is full, and nothing of a message is repeated in, or carried into, the next.",
  ["inputs", "histories"], "every sequence of writes and message ends, every buffer size of at least one byte",
  "Serial output has no tests.",
  ["SerialOut.h", "arduino/SerialOut.cpp", "esp32-esp-idf/SerialOut.cpp", "BufferedOut.h"], [("endl handling of a full buffer", "SerialOut.h"), ("flush", "arduino/SerialOut.cpp, esp32-esp-idf/SerialOut.cpp")], ["driver-level byte log"])
p("O02", "Debug logging writes one complete line per statement, or nothing",
  "In a debug build every log statement evaluates its expression once and, before it ends, puts exactly its text (cut only at the log buffer's size) and one newline on the back-end's first serial port; formatting set in one statement, or a port that fails during it, never affects the text of a later one. In a release build the same statements send nothing and evaluate nothing.",
  ["inputs", "histories", "configurations", "fault_sequences"], "every sequence of log statements, every text and number, port failures, debug and release builds, both back-ends",
  "The tests build neither back-end and never define DEBUG_SERIAL_OUT.",
  ["Debug.h", "arduino/SerialDebug.cpp", "esp32-esp-idf/SerialDebug.cpp", "SerialOut.h", "arduino/SerialOut.cpp", "esp32-esp-idf/SerialOut.cpp"], [("DEBUG_LOG", "Debug.h"), ("SerialDebug and its buffer", "arduino/SerialDebug.cpp, esp32-esp-idf/SerialDebug.cpp")], ["driver-level byte log", "evaluation counts"])
# ---------------------------------------------------------------- SPI / I2C
p("P01", "SPI transfers move exactly the requested bytes, in order",
  "On both back-ends a send puts exactly the given bytes on the bus in order, a receive stores exactly the requested number of bytes as clocked in, and a full-duplex transfer does both position by position, for every length (including lengths beyond the driver's largest transaction and not multiples of four). No byte outside the buffers is touched, and a driver failure is reported as failure.",
  ["inputs", "fault_sequences", "configurations"], "every length 0..65535, data, buffer placement, transfer direction, failing transaction",
  "The hardware back-ends have no tests at all.",
  ["arduino/SpiBus.cpp", "arduino/SpiDevice.cpp", "esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiDevice.cpp", "SpiDevice.h"], [("word/tail split", "arduino/SpiBus.cpp"), ("chunking loop", "esp32-esp-idf/SpiBus.cpp:transfer")], ["simulated bus log", "buffers and red zones", "return value"])
p("P02", "SPI bus set-up and release keep driver resources balanced",
  "Every transfer on the Arduino back-end is bracketed by one begin and one end of a bus transaction with the configured settings. On the ESP back-end initialisation requests the configured pins, frequency and duplex mode in SPI mode 0 and claims no other pin; after release, destruction or a failed initialisation nothing the driver granted stays allocated, nothing is freed twice, and the bus can be initialised again.",
  ["histories", "fault_sequences"], "every sequence of init/transfer/release/destroy and every driver failure pattern",
  "The hardware back-ends have no tests at all.",
  ["esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiBus.h", "arduino/SpiBus.cpp", "arduino/SpiBus.h"], [("init/release pairing", "esp32-esp-idf/SpiBus.cpp"), ("beginTransaction/endTransaction", "arduino/SpiBus.cpp:transfer")], ["simulated driver's resource table", "return values"])
p("P03", "Devices that share a bus only ever see their own traffic",
  "With any number of devices on the same SPI bus (each with its own chip select and, on Arduino, its own clock settings) and on several buses, used one after the other in any order, including on another bus in between, after driver failures and when a session is left by an exception, each device is clocked exactly the bytes of its own transfers while it alone on its bus is selected, with its own settings, and the caller gets back that device's own bytes. Devices on shared I2C buses likewise exchange exactly their own transactions, at their own address, on their own bus and with their own time limit.",
  ["histories", "configurations", "fault_sequences"], "every number of devices and buses, every order and nesting of sessions, exceptions and driver failures in between",
  "The hardware back-ends have no tests at all, and sharing shows only with several devices.",
  ["SpiDevice.h", "arduino/SpiBus.cpp", "arduino/SpiBus.h", "arduino/SpiDevice.cpp", "esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiDevice.cpp", "GpioDigitalPin.h", "I2CDevice.h", "arduino/I2CDevice.cpp", "esp32-esp-idf/I2CDevice.cpp"], [("chip select guard", "GpioDigitalPin.h:ChipSelector"), ("bus settings and transactions", "arduino/SpiBus.cpp:transfer, esp32-esp-idf/SpiBus.cpp"), ("address and limit per device", "arduino/I2CDevice.cpp, esp32-esp-idf/I2CDevice.cpp")], ["bytes seen by every simulated device", "pin levels and settings at every byte", "returned bytes"])
p("I01", "I2C operations succeed exactly when all bytes were exchanged",
  "A send reports success exactly when the addressed device acknowledged all bytes, in order; a receive reports success exactly when all requested bytes arrived and then holds precisely those bytes; send-then-receive receives only after a successful send. Nothing beyond the buffers is touched, the configured device address is used, and the configured time limit (200 ms if none is given) is passed on where the driver takes one.",
  ["inputs", "fault_sequences"], "every length, data, address, time limit and failure point (no acknowledge, short transfer, time-out)",
  "The hardware back-ends have no tests at all.",
  ["I2CDevice.h", "arduino/I2CDevice.cpp", "esp32-esp-idf/I2CDevice.cpp"], [("result checks", "arduino/I2CDevice.cpp, esp32-esp-idf/I2CDevice.cpp"), ("sendThenReceive", "I2CDevice.h")], ["simulated bus log", "return values", "buffers"])
p("H01", "Peripheral configuration reaches the driver as requested",
  "Initialising pins, the UART, the I2C bus or probing and resetting the I2C bus passes exactly the requested pins, directions, pulls, rates, framing and addresses to the driver, takes 8 data bits, no parity, one stop bit and no flow control (UART) and both pull-ups (I2C) for parameters left out, reports success exactly when the driver accepted them, rejects invalid pins, and leaves no driver object allocated by a probe.",
  ["inputs", "fault_sequences", "configurations"], "every parameter combination and driver answer",
  "The hardware back-ends have no tests at all.",
  ["esp32-esp-idf/GpioDigitalPin.cpp", "arduino/GpioDigitalPin.cpp", "esp32-esp-idf/SimpleUartDevice.cpp", "esp32-esp-idf/I2CBus.cpp", "arduino/I2CBus.cpp"], [("configuration structures", "esp32-esp-idf/*.cpp, arduino/*.cpp")], ["simulated driver's received configuration", "return values"])
p("D01", "Pin levels follow commands; chip select spans exactly its scope",
  "Setting, resetting and reading a digital pin acts on the configured pin and no other, at every pin number; a chip-select guard drives its pin low for exactly the lifetime of the guard, also when the scope is left by an exception, and high afterwards.",
  ["histories", "configurations"], "every pin, command history and scope nesting",
  "The hardware back-ends and the guard have no tests.",
  ["GpioDigitalPin.h", "arduino/GpioDigitalPin.cpp", "esp32-esp-idf/GpioDigitalPin.cpp"], [("level calls", "arduino/GpioDigitalPin.cpp, esp32-esp-idf/GpioDigitalPin.cpp"), ("RAII guard", "GpioDigitalPin.h:ChipSelector")], ["simulated pin log"])
p("A01", "Analog reads work repeatedly and leave the converter free",
  "Every analog read of a pin with a converter channel returns that channel's current value however often and in whatever order pins are read, a pin without a channel or a driver failure yields -1, and after every read (successful or not) no converter unit stays claimed.",
  ["histories", "fault_sequences", "configurations"], "every sequence of reads over all pins, both converters, every failure pattern",
  "The hardware back-ends have no tests at all.",
  ["esp32-esp-idf/AnalogPin.cpp", "arduino/AnalogPin.cpp"], [("pin to channel map", "esp32-esp-idf/AnalogPin.cpp"), ("unit claim/release", "esp32-esp-idf/AnalogPin.cpp:singleReadADC")], ["simulated ADC units", "return value"])
p("L01", "Delays and sleeps last as long as asked at every clock value",
  "A delay or light sleep returns only after the requested time has passed (millisecond delays to tick resolution) and not substantially later, whatever the clock value, including when the millisecond counter rolls over during it, when the task is preempted at any point, and when the hardware refuses to sleep. Deep sleep programs exactly the requested wake-up time, and tick readings never run ahead of or behind the hardware clock (modulo the width the platform's own counter has).",
  ["inputs", "schedules", "fault_sequences"], "every duration, start clock value, preemption point and sleep failure",
  "The hardware back-ends have no tests, and rollover takes 49 days on a device.",
  ["esp32-esp-idf/Delays.cpp", "esp32-esp-idf/SleepFunctions.h", "arduino/Delays.cpp", "Delays.h"], [("tick conversion and busy wait", "esp32-esp-idf/Delays.cpp"), ("sleep loop", "esp32-esp-idf/SleepFunctions.h")], ["virtual clock", "programmed wake-up times"])
# ---------------------------------------------------------------- cross-cutting
p("N01", "The library never uses the heap",
  "No operation of the hardware-independent library (text output, views, storage, geometry, frame buffers, canvas, fonts) or of the hardware back-ends allocates or frees dynamic memory, whatever the arguments.",
  ["inputs", "histories"], "every operation and argument, all components",
  "Tests do not observe allocation; a small-string optimisation hides it for short inputs.",
  ["BufferedOut.cpp", "PersistentStorage.h", "graphics/Canvas.cpp", "graphics/EmbeddedFont.cpp", "MemoryView.h", "SerialOut.h", "arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp"], [("caller-provided buffers only", "all components; README 'Efficiency'")], ["allocation functions while a library call is active"])
p("N02", "Independent objects never affect each other",
  "Operations on distinct objects (text buffers, storages, frame buffers with canvases, serial streams and devices) interleaved in any order, or run in parallel threads, give each object exactly the result it has when used alone; simultaneous read-only use of a shared font, view or storage is free of data races.",
  ["schedules", "histories"], "every interleaving of calls on distinct objects and of read-only calls on shared ones",
  "The tests use one object at a time, in one thread.",
  ["BufferedOut.h", "PersistentStorage.h", "graphics/Canvas.h", "graphics/EmbeddedFont.cpp", "SerialOut.h"], [("no static mutable state", "all components")], ["per-object results", "race detector reports"])
p("N03", "Results do not depend on compiler, optimisation or char signedness",
  "For the same calls, the text, storage images, pictures and text bounds produced are identical whether plain char is signed or unsigned and whichever conforming compiler and optimisation level built the library.",
  ["configurations", "inputs"], "char signedness x compiler x optimisation level, over all inputs",
  "One build configuration is tested (x86, signed char, debug), while the target boards have unsigned char and optimised builds.",
  ["graphics/EmbeddedFont.cpp", "BufferedOut.cpp", "PersistentStorage.h", "graphics/SimpleFrameBuffer.h"], [("explicit widths and conversions", "all components; README 'Portability'")], ["digest of all outputs per build configuration"])
p("N04", "Asking changes nothing",
  "Reading a text buffer, looking up stored objects, asking a canvas, frame buffer, font or view for its size, rotation, image, bounds, glyphs or parts, any number of times and in any order, never changes what later operations do or give, and the same question without an operation in between gets the same answer. Looking up a stored object never writes to the storage region, and fonts may lie in memory that cannot be written.",
  ["histories", "inputs"], "every history of operations with every selection of questions in between",
  "Tests ask each question once, after the operations.",
  ["BufferedOut.h", "PersistentStorage.h", "PersistentStorage.cpp", "graphics/Canvas.h", "graphics/Canvas.cpp", "graphics/EmbeddedFont.cpp", "graphics/SimpleFrameBuffer.h", "MemoryView.h"], [("const member functions", "all components")], ["digests of an object that was asked and of one that was not", "write-protected regions and fonts"])
p("N05", "A copy carries on where the original was",
  "Wherever the library's objects can be copied or assigned (text buffers, storages, frame buffers, canvases, fonts, serial streams, ports, devices, pins), at any point of any history, the copy carries on exactly as the original would have, also when the original is gone and its memory reused. A copied frame buffer has an image of its own: drawing on one never shows in the other.",
  ["histories", "inputs"], "every history with copies and assignments at every point of it",
  "Tests never copy objects.",
  ["BufferedOut.h", "PersistentStorage.h", "PersistentStorage.cpp", "graphics/Canvas.h", "graphics/EmbeddedFont.h", "graphics/SimpleFrameBuffer.h", "SerialOut.h", "I2CDevice.h", "SpiDevice.h", "GpioDigitalPin.h", "arduino/PacketUart.h", "esp32-esp-idf/PacketUart.h"], [("members of the copied objects", "all components")], ["digests of an object that was moved to a fresh copy and of one that was not", "reads of the destroyed original (sanitizer)", "images of both copies of a frame buffer"])
p("N06", "What memory held before makes no difference",
  "Whatever the memory an object is created in and the stack held beforehand, every operation of the hardware-independent library and of both back-ends gives the same texts, images (once cleared), storage regions, results and bus traffic, and hands the drivers the same value in every field of their configuration and transaction structures.",
  ["inputs", "histories", "configurations"], "every leftover content of memory under every history",
  "Fresh test processes mostly find zeroed memory, so a forgotten initialisation goes unnoticed.",
  ["BufferedOut.h", "PersistentStorage.h", "PersistentStorage.cpp", "graphics/Canvas.h", "graphics/SimpleFrameBuffer.h", "esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiBus.h", "esp32-esp-idf/GpioDigitalPin.cpp", "esp32-esp-idf/I2CBus.cpp", "esp32-esp-idf/AnalogPin.cpp"], [("constructors, clear(), driver structures", "all components")], ["digests of runs over differently prefilled memory", "fields of driver structures", "undefined-behaviour reports"])
p("N07", "Calls need little stack, whatever the arguments",
  "No call of the hardware-independent library or of the hardware back-ends needs more than about 3 KiB of stack (plus a few copies of the caller's own object when storing or loading it), however long the text, large or far away the shape, long the transfer or numerous the stored objects: nothing recurses over its input or puts buffers of the input's size on the stack.",
  ["inputs", "histories"], "every argument size and history",
  "Tests run on stacks of megabytes.",
  ["BufferedOut.cpp", "PersistentStorage.h", "graphics/Canvas.cpp", "graphics/EmbeddedFont.cpp", "arduino/SpiBus.cpp", "esp32-esp-idf/SpiBus.cpp", "SerialOut.h", "arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp"], [("all loops over the input", "all components")], ["painted stack, depth after each call", "guard page"])
p("N08", "The work of a call is bounded by what it is given",
  "Every call ends after work that is at most a fixed amount plus proportional to what it handles: the text, the field or the digits that fit the buffer, the objects stored in the region, the pixels of a shape's outline or of its visible area, the bytes of a transfer. Nothing takes time with the square of its input, loops over a width, precision or area far beyond what is visible or fits, or makes more than a few driver calls for each byte when nothing has to be waited for.",
  ["inputs", "histories"], "every argument size and history",
  "Tests use short inputs, for which any amount of repeated work goes unnoticed.",
  ["BufferedOut.cpp", "PersistentStorage.h", "PersistentStorage.cpp", "graphics/Canvas.cpp", "graphics/EmbeddedFont.cpp", "arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "arduino/SpiBus.cpp", "esp32-esp-idf/SpiBus.cpp"], [("all loops over the input", "all components")], ["blocks executed by the library during each call", "bytes touched by its memory functions", "driver calls"])
# ---------------------------------------------------------------- converter
p("K01", "Converted fonts reproduce the source font's glyphs",
  "For every font, size, resolution and character set, each character of the converted font has exactly the bitmap, size, offset and advance of the rendered source character (the glyph of its Unicode code point), the header states the character range and line height of the font, and the header and binary outputs describe the same font with consistent bitmap offsets.",
  ["inputs", "configurations"], "every usable font file, size, DPI, encoding and output format",
  "The converter has no tests.",
  ["gfx-font-converter/main.cpp", "gfx-font-converter/FreeTypeFace.cpp", "gfx-font-converter/EncodingConverter.cpp", "gfx-font-converter/BitStream.h"], [("render loop, bit packing, offset accumulation", "gfx-font-converter/main.cpp")], ["decoded output files against an independent FreeType rendering"])
p("K02", "The converter ends cleanly: a correct font or an error, never else",
  "For every command line and font file (missing, damaged, unscalable, with glyphs or tables too large for the output format, unknown encodings, malformed numbers, unwritable destination) the converter terminates without crashing or memory errors, and either exits successfully with complete, representable output or exits with failure and a message.",
  ["inputs", "fault_sequences", "configurations"], "every command line, corrupted font bytes, size/DPI extremes, output failures",
  "The converter has no tests.",
  ["gfx-font-converter/main.cpp", "gfx-font-converter/FontConverterConfig.cpp", "gfx-font-converter/FreeTypeLibrary.cpp", "gfx-font-converter/FreeTypeFace.cpp"], [("exception handling and range checks", "gfx-font-converter/main.cpp")], ["exit status, stderr, sanitizer reports, output files"])
p("K03", "Bit stream output is the exact bit sequence, padded to a byte",
  "For every sequence of bits, bytes and flushes written to the bit stream, the emitted bytes are exactly the bits in order, most significant first, with zero padding inserted only at a flush, and a flush leaves nothing behind.",
  ["inputs", "histories"], "every sequence of bit/byte/flush operations",
  "The bit stream has no tests.",
  ["gfx-font-converter/BitStream.h"], [("bit accumulator", "gfx-font-converter/BitStream.h")], ["emitted bytes"])
p("K04", "Character conversion maps every code to its own Unicode code point",
  "Feeding any sequence of text in a supported encoding, byte by byte, yields for each completed character exactly its code point (or its text in the target encoding) and nothing for incomplete or invalid bytes, regardless of what was fed before a completed or rejected character.",
  ["inputs", "histories"], "every supported 8-bit code page and multi-byte encodings up to four bytes, every byte sequence of complete characters mixed with invalid bytes",
  "The encoding conversion has no tests.",
  ["gfx-font-converter/EncodingConverter.cpp", "gfx-font-converter/EncodingConverter.h"], [("pending-byte buffer", "gfx-font-converter/EncodingConverter.cpp")], ["returned values against an independent decoder"])
p("K05", "Generated font headers compile and render as the source font",
  "For every font file name, size and encoding, the generated header compiles into the library as it stands, and text drawn with it, or with the binary output embedded into the program, on a canvas has exactly the pixels of the source font's rendered glyphs.",
  ["inputs", "configurations", "programs"], "every font, file name, size, encoding; every generated header as a program",
  "The converter has no tests; only one header, generated years ago, is compiled.",
  ["gfx-font-converter/main.cpp", "graphics/GFXFontsAdapter.h", "graphics/EmbeddedFont.cpp", "graphics/Canvas.cpp"], [("header text generation", "gfx-font-converter/main.cpp:writeHeaderFile")], ["compiler exit status", "canvas image against FreeType rendering"])
p("K06", "The converter's output depends only on the font and the options",
  "Converting the same font file with the same options gives, byte by byte, the same output and the same exit code, wherever it is started, however the paths lead to the files and the options are ordered, whatever older (longer or shorter) output lies in the way and whatever the locale, environment or contents of fresh memory. Nothing but the output files changes.",
  ["inputs", "configurations", "histories"], "every font and option set, working directory, path form, older output, environment and content of fresh memory",
  "The converter has no tests.",
  ["gfx-font-converter/main.cpp", "gfx-font-converter/FontConverterConfig.cpp", "gfx-font-converter/FreeTypeLibrary.cpp", "gfx-font-converter/BitStream.h", "gfx-font-converter/EncodingConverter.cpp"], [("output files opened and written", "gfx-font-converter/main.cpp"), ("options", "gfx-font-converter/FontConverterConfig.cpp")], ["files of repeated runs", "directory contents", "memcheck reports"])

p("K07", "The converter obeys every documented form of its command line",
  "Every documented option works in its short and long form, with its value joined, separated or after an equals sign, in any order, and determines the output accordingly: an omitted option means the documented default (141 DPI, 12 points, ASCII, generated header, the executable's directory however it was started). The files appear in the requested directory and nowhere else; help converts nothing.",
  ["inputs", "configurations"], "every combination, spelling and order of the documented options, every way of starting the program",
  "The converter has no tests.",
  ["gfx-font-converter/FontConverterConfig.cpp", "gfx-font-converter/FontConverterConfig.h", "gfx-font-converter/main.cpp"], [("option parsing and defaults", "gfx-font-converter/FontConverterConfig.cpp"), ("choice of the output directory", "gfx-font-converter/main.cpp:main")], ["output files against an independent rendering under the requested options", "directory contents", "usage text"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
