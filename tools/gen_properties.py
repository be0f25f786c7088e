#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
ALG = ["md5", "sha1", "sha224", "sha256", "sha512"]
CTX = ["libhmac/libhmac_%s_context.c" % a for a in ALG]
ONE = ["libhmac/libhmac_%s.c" % a for a in ALG]
PY = ["pyhmac/pyhmac.c"] + ["pyhmac/pyhmac_%s.c" % a for a in ALG]
PYC = ["pyhmac/pyhmac_%s_context.c" % a for a in ALG]
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "One-shot digests equal the published standard for every message",
  "For every message, the one-shot calculation of MD5, SHA-1, SHA-224, SHA-256 and SHA-512 succeeds and returns exactly the digest that RFC 1321 and FIPS 180 define for those bytes. The length, the alignment and the content of the message, and the digest back end the library was built with, make no difference.",
  ["inputs", "configurations"], "all messages (every length around every padding boundary, every byte value at every position, every short message), every alignment, every digest back end",
  "The tests hash a dozen RFC vectors; padding, carry and word-order mistakes show only for specific lengths or bit patterns, and none of the digest tests can even be linked in this environment.",
  ONE + CTX + ["libhmac/libhmac_byte_stream.h", "common/byte_stream.h"],
  [("block transform", "libhmac/libhmac_*_context.c transform"), ("padding and length encoding", "libhmac/libhmac_*_context.c finalize"), ("one-shot wrapper", "libhmac/libhmac_*.c calculate")],
  observe=["digest bytes and return value of the one-shot calculation"])
p("P02", "A digest does not depend on how the message is cut into updates",
  "Feeding a message to a digest context in any sequence of update calls, empty ones included, gives the same digest as hashing it in one call. After every prefix of updates the context stands for exactly the bytes fed so far.",
  ["histories", "configurations"], "every partition of every message up to the bound into update calls, for every digest and back end",
  "A test feeds one or two fixed chunkings; the number of chunkings is exponential in the length and the buffering code branches on fill level, remaining size and whole blocks.",
  CTX, [("partial block buffering", "libhmac/libhmac_*_context.c update"), ("bulk transform of whole blocks", "libhmac/libhmac_*_context.c transform")],
  state=[("hash count", "number of bytes already transformed", "context structure"), ("block and block offset", "the bytes waiting for a full block", "context structure")],
  observe=["digest after any sequence of updates"])
p("P03", "HMAC equals RFC 2104 for every key and message length",
  "For every key and message, including empty ones and keys shorter than, equal to and longer than the block size of the digest, the one-shot HMAC calculation succeeds and returns exactly the RFC 2104 value. This holds for every digest and every digest back end, also when the output buffer is larger than the HMAC.",
  ["inputs", "configurations"], "every key length x message length up to several blocks, every byte value at every key position, every digest and back end",
  "The tests use the seven RFC vectors; the key path switches at the block size (64 or 128), a boundary no RFC vector sits on.",
  ONE, [("key hashing and zero extension", "libhmac/libhmac_*.c calculate_hmac"), ("inner and outer padding", "libhmac/libhmac_*.c calculate_hmac")],
  observe=["HMAC bytes and return value"])
p("P04", "Calls touch exactly the memory the caller granted",
  "No call reads before or after the given message or key bytes, changes them, or writes to the output buffer beyond the size of the digest; no call overruns the library's own buffers or has undefined behaviour in C. Passing an output buffer larger than the digest leaves the bytes after the digest unchanged, and inputs may lie at any alignment or in read-only memory.",
  ["inputs", "histories"], "every size and alignment combination up to the bound at both edges of inaccessible memory, every fill level of the context",
  "The tests use page-resident literals with slack around them and no sanitizer, so an over-read of one block or an overflow of the internal block at one fill level stays silent.",
  ONE + CTX, [("size bookkeeping", "libhmac/libhmac_*_context.c update, transform, finalize"), ("size checks", "libhmac/libhmac_*.c calculate, calculate_hmac")],
  observe=["guard pages around inputs and outputs", "canaries", "sanitizer reports"])
p("P05", "A rejected call fails cleanly and leaves no trace",
  "Every call given a missing context, buffer, key or output, a size above the signed maximum, an output buffer smaller than the digest, or a context reference that is already set, returns -1 and, when an error is asked for, sets one; valid calls return 1 and set none. A rejected call leaves the context, its later digests and the output buffer unchanged, wherever it happens in a sequence of calls. A valid call does the same without an error reference, or with one that holds an earlier error, which it leaves alone.",
  ["histories"], "every sequence of valid and invalid calls up to the depth, every combination of argument classes for every function",
  "Tests make each invalid call once on a fresh context and look only at the return value, never at whether a half-filled context still produces the right digest.",
  ONE + CTX, [("argument checks at the head of every function", "libhmac/libhmac_*.c, libhmac/libhmac_*_context.c")],
  observe=["return value, error presence, digest of the continued context, output bytes"])
p("P06", "Running out of memory is reported, leaks nothing and spoils nothing",
  "If any one or several memory allocations made by a call fail, the call returns -1 with an error set, has released everything it had allocated, and leaves context references unset. The same call repeated afterwards, with memory available, succeeds with the correct result.",
  ["fault_sequences"], "every allocation of every call failing, alone, in every pair, and from any point on",
  "The tests' allocation hook needs a preloaded shared object and does not run here, and it fails single allocations in a few functions without looking for leaks.",
  ONE + CTX, [("goto on_error clean up", "libhmac/libhmac_*.c, libhmac/libhmac_*_context.c initialize")],
  observe=["return value, error, live allocations after the call, result of the retry"])
p("P07", "Contexts are independent and every history balances its resources",
  "Any interleaving of operations on several contexts, of the same or of different digests, and of one-shot calls in between, gives each context the digest of exactly its own bytes; the older function names act identically and can be mixed freely on one context. Freeing a context in any state releases everything it held, unsets the reference and succeeds, and freeing an unset reference is a successful no-op.",
  ["histories"], "every interleaving of create, update, finalize, free and one-shot operations over two or three contexts up to the depth bound",
  "Tests use one context at a time; state shared by mistake between contexts, or kept from an earlier one-shot call, shows only in interleavings.",
  ONE + CTX, [("per-context structure", "libhmac/libhmac_*_context.h"), ("deprecated aliases", "libhmac/libhmac_*.c initialize, update, finalize, free")],
  observe=["digests per context, live allocations, reference values"])
p("P08", "Released memory and finished contexts hold no key or message material",
  "Memory that a call gives back to the allocator does not contain the key, the padded key blocks, the hashed key, message bytes waiting in a buffer, or a resumable keyed digest state, whether the call succeeded or failed. A finalized context of the built-in implementations no longer contains message bytes or digest state.",
  ["inputs", "fault_sequences"], "every key length class x every success and failure exit (each allocation failing, each invalid argument) x built-in digests, with and without compiler optimization",
  "No test looks at released memory, and compilers remove clearing that precedes a release, which only the produced code shows.",
  ONE + CTX, [("clearing of key data and paddings", "libhmac/libhmac_*.c calculate_hmac"), ("clearing of the context", "libhmac/libhmac_*_context.c finalize, free")],
  observe=["content of heap blocks at the moment they are freed", "content of a context after finalize"])
p("P09", "Threads using their own contexts never disturb each other",
  "Threads that work on distinct contexts or make one-shot calls at the same time always get the results they would get alone, under every interleaving, from the first call in the process on. The library needs no initialization call and no locking for that.",
  ["schedules"], "every interleaving of two or three threads' memory accesses in the library, up to equivalence, for digest, HMAC and context life cycles",
  "Tests are single threaded; a table filled on first use or a shared scratch buffer fails only in a particular interleaving.",
  ONE + CTX, [("no writable shared state", "libhmac/libhmac_*_context.c tables"), ("all state in the context or on the stack", "libhmac/libhmac_*.c")],
  observe=["results per thread for each schedule"], hook=None)
p("P10", "Every build configuration of the library behaves the same",
  "Whatever combination of digest providers and code variants the build selects for each digest, including mixes of built-in and external implementations, the library builds and all valid calls return the same values and the same digests and HMACs. Compiler, optimization level and the word size of the platform (32 or 64 bits) make no difference either, and neither does calling from C or C++: what the public headers declare and define is what the library provides.",
  ["configurations"], "every combination of the configuration macros that select code in the digest implementations, x compilers and optimization levels",
  "A test run sees one configuration, the one detected on its machine; the loop variants and the older provider interface are never compiled.",
  CTX + ["libhmac/libhmac_%s_context.h" % a for a in ALG] + ["libhmac/libhmac_definitions.h.in", "m4/libcrypto.m4"],
  [("preprocessor selection of the back end", "libhmac/libhmac_*_context.[ch]"), ("public prototypes and sizes", "include/libhmac.h.in, include/libhmac/*.h.in")], observe=["digests and HMACs per configuration"])
p("P11", "Message lengths beyond 2^32 bits and 2^32 bytes are counted exactly",
  "Digests and HMACs of messages longer than 512 MiB and longer than 4 GiB equal the standard's value, whether the data arrive in one call or in many, on 32 bit platforms too. No length is truncated, wrapped or refused below the signed maximum of the platform.",
  ["inputs", "histories"], "message lengths at and around 2^29, 2^31 and 2^32 bytes, in one call and split at every side of those boundaries, for every digest and back end",
  "No test hashes more than a few hundred bytes, so a 32-bit counter or a narrowed size is invisible to them.",
  ONE + CTX, [("byte counter and bit length", "libhmac/libhmac_*_context.c update, finalize")], observe=["digest bytes"])
p("P12", "The checksum tool prints the digest of exactly the file's bytes, or fails",
  "Whatever way the operating system delivers the data (short reads, one byte at a time, any buffer size), a run that exits successfully has printed, for each selected digest type, the digest of all bytes of the input and nothing else. If opening, sizing or reading fails, or data end early, the run reports failure with a failing exit status and prints no digest; if closing the input or writing the output fails it reports failure.",
  ["fault_sequences", "inputs"], "every sequence of full reads, short reads, errors and early ends over inputs of a few buffers, every buffer size and digest selection",
  "No test runs the tool, and reads from a real file practically always come back full.",
  ["hmactools/hmacsum.c", "hmactools/sum_handle.c", "hmactools/digest_hash.c"],
  [("read loop", "hmactools/sum_handle.c process input"), ("printing of the hash values", "hmactools/sum_handle.c, hmactools/digest_hash.c")],
  observe=["standard output, exit status"])
p("P13", "An interrupt at any moment never yields a wrong digest or a crash",
  "If the user interrupts the checksum tool at any point, the run ends promptly, either with the aborted message and a failing exit status and without a digest of incomplete data, or with a complete and correct result. The interrupt never touches released memory, crashes the tool or leaves it blocked.",
  ["schedules", "crash_points"], "an interrupt delivered at every memory access and library call of the tool, in successful and failing runs, also twice",
  "An interrupt is asynchronous; a test cannot place it in the few instructions where the handler and the main program collide.",
  ["hmactools/hmacsum.c", "hmactools/hmactools_signal.c", "hmactools/sum_handle.c"],
  [("abort flag and handler", "hmactools/hmacsum.c signal handler"), ("abort test in the read loop", "hmactools/sum_handle.c")],
  state=[("abort flags", "set by the handler, read by the program", "hmactools/hmacsum.c, hmactools/sum_handle.c")],
  observe=["standard output, exit status, signals received"])
p("P14", "Digest type selection honours exactly the documented names",
  "For every value of the digest type option, the tool calculates MD5 plus precisely those types that are named in the comma separated list in their documented spellings (all lower or all upper case; for the SHA types with an optional dash or underscore before the number), in any order and with any repetition. Unknown or empty names select nothing and never change what the valid names select.",
  ["inputs"], "every list of up to three entries over all documented spellings and near misses, every short string over the characters of the names",
  "No test passes a digest type; the comparison ladder has some forty branches of hand-written lengths.",
  ["hmactools/sum_handle.c", "hmactools/hmacsum.c"], [("name comparison ladder", "hmactools/sum_handle.c set digest types")], observe=["set of digest lines printed"])
p("P15", "Human readable sizes are read and written exactly, or refused",
  "A size of digits, an optional fraction, an optional unit prefix (K to Y, either case) and an optional B (powers of 1000) or iB (powers of 1024; also without any suffix) is read as exactly that number of bytes, where a fraction counts, up to its second digit, each hundredth as ten of the next smaller unit and counts nothing without a prefix; a value that does not fit in 64 bits or a malformed unit is refused, never silently turned into another number. Sizes are written with the largest fitting prefix, truncated, with one decimal (hundreds of the next smaller unit, at most 9) below ten, never past the end of the given buffer.",
  ["inputs"], "every string over the relevant characters up to the length bound, every prefix x suffix x digit count around the 64-bit limit; every size around each power and each buffer length",
  "No test converts a size; each prefix, suffix, fraction and overflow boundary is a separate path.",
  ["hmactools/byte_size_string.c", "hmactools/sum_handle.c"], [("conversion", "hmactools/byte_size_string.c"), ("process buffer size option", "hmactools/sum_handle.c")], observe=["converted value, return value, text written"])
p("P16", "Digests are rendered as exact lower-case hexadecimal text",
  "Every byte string is rendered as two lower-case hexadecimal digits per byte, most significant first, followed by an end of string, and nothing else is written. A destination too small for that is refused without being written to.",
  ["inputs"], "every byte value at every position, every digest size and every destination size around the limit",
  "No test renders a digest, and a mistake may touch a single nibble value or the terminator only.",
  ["hmactools/digest_hash.c"], [("nibble conversion", "hmactools/digest_hash.c")], observe=["string and bytes around it"])
p("P17", "The bundled option parser agrees with POSIX getopt on every command line",
  "On platforms without getopt the bundled parser yields, for every argument list, the same sequence of options, option arguments, unknown-option and missing-argument indications, and the same index of the first operand as POSIX getopt. It always terminates and never reads outside the arguments.",
  ["inputs"], "every argument list up to four arguments over an alphabet of option characters, groups, option arguments, '-', '--' and the empty string",
  "It is compiled only where getopt is missing, so nothing on this platform ever runs it.",
  ["hmactools/hmactools_getopt.c"], [("option scanner", "hmactools/hmactools_getopt.c")], state=[("position in the group and argument index", "where the next option is taken from", "hmactools/hmactools_getopt.c")], observe=["return value, option argument and index after every call"])
p("P18", "The Python module computes the same digests and HMACs as the standard",
  "For every sequence of calls on the Python module and its context objects with valid arguments, each result is a bytes object equal to the standard digest or HMAC of exactly the bytes supplied to that function or object. A function or method given arguments of the wrong type, number or name raises an exception and leaves every object usable and unchanged.",
  ["histories", "inputs"], "every sequence of module and object operations up to the depth over several data lengths, every digest; every message and key length across block boundaries",
  "The Python tests need an installed module and check a few vectors, never sequences or several objects.",
  PY + PYC, [("argument parsing and result construction", "pyhmac/pyhmac_*.c"), ("method tables", "pyhmac/pyhmac.c, pyhmac/pyhmac_*_context.c")], observe=["returned values and exceptions in Python"])
p("P19", "The Python module keeps object life cycles, references and errors in order",
  "Whatever the sequence of creating, initializing (also repeatedly or not at all), using and destroying objects, and wherever memory runs out, every native context is released exactly once, reference counts of arguments and results stay balanced, and each failing call raises exactly one Python exception while each successful call leaves none pending. The interpreter never crashes.",
  ["histories", "fault_sequences"], "every life-cycle sequence up to the depth, with every native allocation failing in turn",
  "Leaks, double frees and stray exceptions do not change a test's result values.",
  PY + PYC + ["pyhmac/pyhmac_error.c"], [("init and free of the type", "pyhmac/pyhmac_*_context.c"), ("raising of errors", "pyhmac/pyhmac_error.c")], observe=["live native allocations, reference counts, pending exceptions"])
p("P20", "Python threads may use distinct objects wherever the lock is released",
  "While one thread is inside a native call of the module with the interpreter lock released, any operation another thread performs on other objects or module functions leaves both threads' results correct. The module calls no interpreter function and changes no reference count while it does not hold the lock.",
  ["schedules"], "every point where a call gives up the interpreter lock x every operation of another thread there, nested up to two deep",
  "Python tests are single threaded and cannot stop a thread between releasing and retaking the lock.",
  PY + PYC, [("release of the interpreter lock around native calls", "pyhmac/pyhmac_*.c")], observe=["results per thread, interpreter lock state at each interpreter call"])
p("P21", "The public error functions report exactly the error a call produced",
  "The public functions for freeing and printing errors pass the error, stream, buffer and size through unchanged and return what the error library returns, for every error, destination and size. Freeing unsets the reference and is a no-op on an unset one.",
  ["inputs", "histories"], "every function x error depth x destination size around the message length, every order of the calls up to the depth",
  "The tests call each function once with a missing error.",
  ["libhmac/libhmac_error.c"], [("delegation", "libhmac/libhmac_error.c")], observe=["printed text, return values, reference"])
p("P22", "Byte order, rotation and block copy helpers are exact for every value",
  "Reading a stored integer of any supported width in either byte order and writing it back gives the original bytes, each byte having exactly its positional weight; bit rotation is a true rotation for every distance from 1 up to the width less one. The block copy helpers give the same words as element-wise reading.",
  ["inputs"], "every byte value at every byte position for every width and order, every rotation distance, every single-bit word",
  "Only the few macros the digests use are exercised, and only through digest vectors.",
  ["common/byte_stream.h", "libhmac/libhmac_byte_stream.h"], [("copy macros", "common/byte_stream.h, libhmac/libhmac_byte_stream.h")], observe=["values produced by the helpers"])
p("P23", "The checksum tool survives running out of memory at any point",
  "If any allocation made during a run of the checksum tool fails, the run ends with a failing exit status and no digest, or with the complete correct output; it neither crashes nor uses released memory. Whenever a run ends, normally or with an error, it has released everything it had allocated or opened.",
  ["fault_sequences"], "every allocation and every support library call of runs with every option combination failing, alone and in pairs",
  "No test runs the tool, let alone with failing allocations.",
  ["hmactools/hmacsum.c", "hmactools/sum_handle.c"], [("error clean up", "hmactools/sum_handle.c, hmactools/hmacsum.c")], observe=["exit status, output, live allocations and open handles at exit"])
p("P24", "The checksum tool's command line behaves as documented for every argument list",
  "For every argument list, the tool follows the documented options: the first operand is the source, -h and -V print help or copyright and succeed without reading anything, an unknown option, a missing option argument or a missing source fails with the usage text and without a digest. Every run starts with the program name and version, and exits with success exactly when it printed what was asked for; a run that succeeds reports no error.",
  ["inputs"], "every argument list up to four arguments over options, option arguments, groups, '--' and operands, with the system and with the bundled option parser",
  "No test runs the tool.",
  ["hmactools/hmacsum.c", "hmactools/hmactools_getopt.c", "hmactools/hmactools_output.c"], [("option loop", "hmactools/hmacsum.c main")], observe=["standard output, standard error, exit status, files opened"])
p("P25", "A failing digest provider is always reported and never yields a digest",
  "If any call into the external digest provider fails, the calling function returns -1 with an error set, releases what it had acquired and never reports success with a wrong or missing digest. Later calls on other contexts are unaffected.",
  ["fault_sequences"], "every provider call of every library function failing, alone and in pairs, for every provider interface",
  "A provider practically never fails in a test run.",
  ONE + CTX, [("result checks of provider calls", "libhmac/libhmac_*_context.c initialize, update, finalize")], observe=["return value, error, live provider objects, digest"])
p("P26", "The Windows variant of the tool behaves like the other one",
  "Compiled for Windows, with its 16 bit characters, memory functions and console interrupts, the tool builds, and for every command line, digest type list, size, input, failing call and interrupt (Ctrl+C or Ctrl+Break) it gives the same digests, texts, exit status and release of resources as elsewhere. A character beyond the single bytes is never taken for an ASCII one (digest name, separator, digit, prefix, option), and file names reach the file library unchanged.",
  ["inputs", "fault_sequences", "histories"], "the explorations of P12 to P17, P23 and P24 on this variant, and every 16 bit character in every place of names, sizes, options and operands",
  "Nothing on this platform compiles these parts, and nothing anywhere tests them.",
  ["hmactools/hmacsum.c", "hmactools/hmactools_signal.c", "hmactools/hmactools_getopt.c", "hmactools/sum_handle.c", "hmactools/byte_size_string.c", "hmactools/digest_hash.c", "common/wide_string.h", "common/memory.h"],
  [("wide system strings", "common/system_string.h, common/wide_string.h, hmactools/hmactools_system_split_string.h"), ("console control handler", "hmactools/hmactools_signal.c"), ("Windows memory functions", "common/memory.h")],
  state=[("registered console control handler", "who is told about an interrupt", "hmactools/hmactools_signal.c")], observe=["standard output, standard error, exit status, live allocations and open handles, names of opened files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
