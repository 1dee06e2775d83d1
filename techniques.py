SAN = "ASan+UBSan build, "
SIM = SAN + "real back-end sources over simulated drivers with a virtual clock and fault injection; "
TECH = {
    "U01": SIM + "received bytes compared with the scripted line (conservation and order)",
    "U02": SIM + "frame oracle over the scripted line",
    "U03": SIM + "virtual time of return compared with the limit, clock roll-over and preemption",
    "U04": SIM + "exact-size heap blocks and returned counts under driver errors",
    "U05": SIM + "wire log and port settings compared with the request",
    "O01": SIM + "wire log per message compared with a text model",
    "O02": SIM + "wire log per log statement, evaluation counts, debug and release views side by side",
    "P01": SIM + "bus log compared byte by byte with the caller's buffers",
    "P02": SIM + "driver resource table (leaks, double frees, use without a grant) over object lives with failing calls",
    "P03": SIM + "simulated slaves that note what they are clocked while selected, compared with each device's own transfers",
    "I01": SIM + "bus log, results and acknowledge model compared",
    "H01": SIM + "driver's view of pins, ports and buses compared with the request",
    "D01": SIM + "pin level log compared after every step, exceptions included",
    "A01": SIM + "readings and claimed converter units compared",
    "L01": SIM + "elapsed virtual time compared around clock roll-overs",
    "N01": "interposed malloc/free/new/delete: any allocation inside a library call is reported",
    "N02": "ThreadSanitizer and ASan builds, digests of objects used interleaved or in threads compared with their lone runs",
    "N03": "trace digests of six builds (two compilers, optimisation levels, char signedness) compared offline",
    "N04": SAN + "twin objects, one of them asked in between, digests compared; write-protected regions and fonts",
    "N05": SIM + "twin objects, one of them replaced by copies of itself in between (originals destroyed and overwritten), digests compared; images of copied frame buffers",
    "N06": "undefined-behaviour sanitizer, stack and object memory overwritten before every call; digests of repeated runs with different leftovers compared",
    "N07": "stack monitor: every library call runs on a painted stack with a guard page, depth reached measured",
    "N08": "work monitor: compiler coverage callbacks count every block the library executes, memory functions count bytes; bound checked after each call",
    "K06": SAN + "repeated runs in other surroundings compared byte by byte, memory poisoning and valgrind memcheck",
    "K07": SAN + "runs in every spelling of the options, output compared with an independent rendering under the options meant, directory contents watched",
    "K01": SAN + "converter run as a process, both outputs decoded and compared with an independent FreeType rendering or the generated pixels",
    "K02": SAN + "exit status, messages, output completeness and sanitizer reports watched under damaged inputs and injected write faults",
    "K03": SAN + "emitted bytes compared with a bit vector after every operation",
    "K04": SAN + "every byte's result compared with independent decoders over random histories",
    "K05": "generated headers compiled by two compilers, the programs' images compared with an independent FreeType rendering",
}
NOTES = {}
for k in ("U01", "U02", "U03", "U04", "U05", "O01", "O02", "P01", "P02", "P03", "I01", "H01", "D01", "A01", "L01"):
    NOTES[k] = ("Held on the executions counted in the evidence file. The real Arduino and ESP-IDF back-end sources run over stand-ins of the vendor drivers written from "
                "their documentation; hardware and the vendor drivers themselves are outside. Trusts the stand-ins, the compilers and sanitizers.")
