claim("C01", "TLA+ tree-hash specification; recorded calls checked with TLC",
      "Explored: every length to a little over two chunks, the surroundings of every chunk boundary to 70 chunks, random longer ones; all modes, back ends and alignments; every result compared with the specification evaluated by TLC.")
claim("C02", "TLA+ refinement of the incremental hasher, model-checked; histories generated from it replayed and judged with TLC",
      "The algorithm is model-checked against the tree hash for every split at small sizes; the code is bound to it by replaying one history for each pair of control states connected by an update, and random ones.")
claim("C03", "TLA+ API state machine; generated call sequences replayed and judged with TLC",
      "Explored: finalize and clone at every kind of position of a chunk and of the subtree stack, and random call sequences over three hashers.")
claim("C04", "TLA+ model of output readers, model-checked; recorded reads judged with TLC",
      "Reads, clones and to_hash at positions across all of the 64-bit range. Reading on from the very last 64 bytes of a stream of 2^64 is left out.")
claim("C05", "TLA+ compression specification; recorded back-end calls judged with TLC",
      "Every number of inputs around the lane counts, every block count, counters with carries in every lane, all flags; arguments otherwise sampled.")
claim("C06", "TLA+ compression specification; recorded back-end calls judged with TLC",
      "As C05 for the C code, in two optimisation levels. NEON runs translated: compiled for AArch64 to LLVM code, and that for this machine.")
claim("C07", "TLA+ compression specification (64-bit words); recorded back-end calls judged with TLC",
      "As C05 for the 64-bit variants.")
claim("C17", "TLA+ refinement of the incremental hasher, model-checked; histories generated from it replayed in the C hasher and judged with TLC",
      "As C02, for every build configuration (the one for ARM translated, as in C06).")
claim("C08", "TLA+ model of the concurrent recursion, model-checked for every order; traces of concurrent runs judged with TLC",
      "Every order in which the halves can complete, for messages of a few dozen chunks; the code in pools of 1 to 31 threads, from several threads and tasks at once and one after the other.")
claim("C15", "TLA+ refinement of the reference hasher, model-checked; histories generated from it replayed and judged with TLC",
      "As C02, with every output length to several blocks.")
claim("C16", "TLA+ tree-hash specification; recorded calls of the Python code judged with TLC",
      "Lengths around chunk boundaries, all modes, outputs of several lengths.")
claim("C18", "TLA+ model of hash values, model-checked; recorded conversions and comparisons judged with TLC",
      "Pairs that differ in any bit, in cancelling differences in any two positions, and random ones; Debug text of hashers and outputs in all kinds of states.")
claim("C09", "TLA+ model of the terms an adversary can hash, model-checked; groups of related messages replayed and judged with TLC",
      "Every pair of small symbolic messages, modes and keys in the model; in the code, hashes of related messages compared with the specification and with each other. Collision resistance of the compression function itself is assumed.")
claim("C10", "TLA+ tree-hash specification with 64-bit counters; recorded calls at positions up to 2^64 judged with TLC",
      "Hashers are put at large positions through a hook (and 4 GiB are hashed for real), around every power of two and with every shape of the subtree stack; 2^64 bytes are the end.")
claim("C11", "TLA+ model of readers and writers, model-checked; scripted readers and writers replayed and judged with TLC",
      "Every script of a few calls, random longer ones: short reads and writes, interruptions, errors.")
claim("C12", "TLA+ state machine of the command-line tool; recorded invocations judged with TLC",
      "Files, pipes, FIFOs, sockets, terminals, /proc; sizes around the buffer and chunk sizes and beyond 4 GiB; lengths to 2^64-1 (of enormous outputs the beginning, of large ones also the end and the number of digits).")
claim("C13", "TLA+ state machine of the command-line tool, model-checked; its invocations run and judged with TLC",
      "Every list of up to three inputs of four kinds with every kind of standard input, and random longer lists.")
claim("C14", "TLA+ state machine of the command-line tool, model-checked; its invocations run and judged with TLC",
      "Malformed keys of every length and with every character, at every position; combinations and repetitions of options; words that are not options.")
claim("C19", "TLA+ model of the memory that batches touch, model-checked; calls between inaccessible pages, and of instrumented builds, judged with TLC",
      "Every buffer at either end of its pages, inputs read-only, canaries around outputs; the same with AddressSanitizer. Every number of inputs around the lane counts. NEON as in C06.")
claim("C20", "TLA+ model of machines with different byte orders and addresses, model-checked; recorded calls on interpreted and translated machines judged with TLC",
      "The Rust code interpreted (Miri) on big-endian machines with 64- and 32-bit addresses (thorough: also little-endian with 32 bits), the portable C code translated for a big-endian machine and for WebAssembly (32 bits) and with every access checked for alignment; messages to a few chunks, positions of messages and outputs to 2^64.")
claim("C21", "TLA+ model of choosing back ends on processors, model-checked; recorded calls on interpreted processors with different extensions judged with TLC",
      "The Rust code interpreted (Miri, which stops at instructions there are not) on eight processors (thorough: also 32-bit ones), from none of the extensions to AVX-512; messages of up to 18 chunks.")

claim("C22", "TLA+ model of two runs on different secrets side by side (noninterference), model-checked; recorded courses of real executions judged with TLC",
      "Courses (every instruction and every access to memory) of the optimised and unoptimised code under a tool for Valgrind, for Rust and C back ends and the reference (C with AVX-512 by single steps); some hundred pairs of values, 8 to 40 secrets per length.")

claim("C23", "TLA+ model of what an incremental hasher costs (compressions, values kept), model-checked; measured costs of real calls judged with TLC",
      "Instructions counted by a tool for Valgrind: messages to 2 MiB (thorough: 8 MiB) optimised, 80 KiB unoptimised, in pieces of 1 byte to 100 kB; heap and stack to 32 MiB; the tool with 48 MiB of memory, 24 descriptors or 1 GiB of addresses.")

claim("C24", "TLA+ model of printing through a buffer to an output that takes some bytes, model-checked; runs of the tool with such outputs judged with TLC",
      "Files limited in size at every point around lines and buffers, full devices, pipes that take some bytes, readers that are gone, sockets, outputs that do not block; outputs of 1 byte to 132 kB.")
