prop("P01", "Bitstream bit reader returns exactly the coded bits and never reads past the end",
 "For every byte buffer and every sequence of reads, each fixed-length, signed, LEB128, VLC, uniform and sub-exponential read returns exactly the value its standard definition assigns to the bits at the current position, and the position advances by exactly the bits consumed. No byte outside the buffer is read. Reading past the end is flagged as an error, except where the format defines the value from the bits available.",
 ["inputs"], "every buffer content and length within the bound, every sequence of read widths within the bound",
 TESTS + "nothing exercises header bit reading at all, and the carry-over between refills depends on the exact alignment history.",
 ["src/getbits.c", "src/getbits.h"], [("bit reservoir with refill", "src/getbits.c")],
 "Buffers up to 12 bytes, three chained reads; the reference is an independent bit-by-bit definition.")
prop("P02", "Sequence headers are parsed exactly as coded; invalid ones are rejected",
 "Every sequence header written per the AV1 syntax is accepted and reported with exactly the coded values for every field, including all derived colour, timing and operating-point information. A header that violates the profile, reserved-value or colour constraints, or is truncated, is rejected and leaves no sequence header behind.",
 ["inputs", "configurations"], "all field values, over a set of concrete layouts of the optional syntax elements",
 TESTS + "no test feeds a single OBU.",
 ["src/obu.c", "include/dav1d/headers.h"], [("sequence header parser", "src/obu.c"), ("header-only entry point", "src/obu.c")],
 "Optional-element layout is concrete per case (48 layouts, 20 malformed ones); all payload values symbolic.")
prop("P03", "Frame headers are parsed exactly as the AV1 syntax defines",
 "For every valid frame header, each coded value (frame type and flags, sizes, superres, quantizer, segmentation, loop filter, CDEF, loop restoration, transform mode, reference mode) is reported exactly as coded, with the values the standard derives or inherits from the primary reference when an element is absent. The header is consumed to its last bit and decoding starts only when tile data arrives.",
 ["inputs", "configurations"], "all payload values, over 64 (thorough: 256) combinations of sequence options, frame type and optional elements",
 TESTS + "no test parses a frame header.",
 ["src/obu.c", "src/getbits.h", "include/dav1d/headers.h"], [("uncompressed header parser", "src/obu.c"), ("OBU dispatch", "src/obu.c")],
 "Oracle: an independent writer of the AV1 syntax; structure concrete per case, payload symbolic.")
prop("P04", "Frames are split into exactly the tiles the standard prescribes",
 "For every frame size, superblock size and coded split, uniform or explicit, the tile columns and rows start exactly where the standard puts them, cover the whole frame once, and stay within its maximum tile width, area and count. The context-update tile and tile-size byte count are those coded.",
 ["inputs", "configurations"], "tile syntax over concrete frame sizes from 1x1 to 65536x65536, other payload arbitrary",
 TESTS + "no test parses tile information.",
 ["src/obu.c"], [("tile info parser", "src/obu.c")],
 "One frame size and split per case (48 quick, 256 thorough), written by an independent model of the standard's tile syntax.")
prop("P05", "References, skip-mode pair and global motion are derived as the standard says",
 "With short reference signalling, the seven references are exactly those the standard derives from the two coded slots and the order hints. Skip mode is allowed exactly when the standard allows it and uses the nearest forward and backward (or two nearest forward) references, for every combination of wrapping order hints. Global motion parameters are coded relative to the primary reference's.",
 ["inputs", "histories"], "arbitrary order hints of the current frame and all 8 slots; arbitrary global motion values",
 TESTS + "no test derives references; wrap-around and ties need specific histories of order hints.",
 ["src/obu.c", "src/env.h"], [("short signalling derivation", "src/obu.c"), ("skip mode reference search", "src/obu.c"), ("modular order distance", "src/env.h")],
 "Order hints fully symbolic in 16 configurations; global motion in 32 concrete model layouts with symbolic values.")
prop("P06", "Film grain parameters are delivered exactly as coded or inherited",
 "For every frame that signals film grain, the grain parameters attached to it are exactly those coded, or those of the named reference with only the seed replaced, and grain is absent when the frame is not showable or the sequence disables it.",
 ["inputs", "configurations"], "all parameter values over 48 concrete choices of point counts, lag and presence flags",
 TESTS + "the film grain tests call synthesis kernels with random parameters and never parse any.",
 ["src/obu.c"], [("film grain parameter parser", "src/obu.c")],
 "Point positions and counts concrete per case; all other values symbolic.")
prop("P14", "Entropy decoding recovers exactly the coded symbols and adapts as specified",
 "For every tile payload and probability state, each decoded symbol, bool, literal and sub-exponential value is the one the standard's arithmetic decoder defines, and adaptive probabilities move exactly by the standard's rule or not at all when updates are disabled. No byte past the end of the tile is read; exhausted data decodes as the defined padding.",
 ["inputs", "histories"], "all buffers, range states and probability tables within the bound",
 TESTS + "the entropy tests compare assembly with C on the same bugs, and never against the definition; refill boundaries are sampled.",
 ["src/msac.c", "src/msac.h"], [("symbol decoder", "src/msac.c"), ("probability adaptation", "src/msac.c")],
 "One symbol from an arbitrary reachable state, plus refill sequences; the C implementation only (assembly is out of reach of the encoding).")
prop("P07", "Any bits at all yield a frame header that stays within the format's limits",
 "For every bit string presented as a frame header, parsing terminates without undefined behaviour, touches no memory outside its state, and either rejects the header or reports values inside the ranges the rest of the decoder relies on (tile layout, loop filter, quantizer, CDEF, restoration, grain).",
 ["inputs"], "every answer of the bit reader and every valid sequence configuration, for intra frames up to the size bound",
 TESTS + "hostile headers are never presented.",
 ["src/obu.c", "include/dav1d/headers.h"], [("uncompressed header parser", "src/obu.c")],
 "Intra frames up to 2^8..2^11 pixels per side quick, 2^16 thorough.")
prop("P08", "Bitstream packets are framed, filtered and attached exactly as the format says",
 "For every packet, the number of bytes consumed is exactly the coded size plus its header, malformed framing is rejected, and packets outside the selected operating point are skipped without any effect. Content light, mastering display and T.35 metadata reach the application exactly as coded, and unknown packet types change nothing.",
 ["inputs", "configurations"], "all packet headers, lengths and payload bytes within the bound",
 TESTS + "no test feeds a single packet.",
 ["src/obu.c"], [("packet header and size", "src/obu.c"), ("metadata parsing", "src/obu.c"), ("operating point filter", "src/obu.c")],
 "Packets of up to 12 bytes; T.35 payloads up to 5 bytes.")
prop("P34", "A frame is decoded exactly when all its tiles arrived once, in order",
 "A frame is handed to the decoder exactly once, when the last of its tile groups has arrived in order, with every tile's data intact; out-of-order, overlapping or surplus tile groups are rejected. Frames over the configured size limit are rejected; repeated headers neither restart nor alter the frame in flight.",
 ["histories", "inputs", "configurations"], "arbitrary tile ranges in the last of up to three tile groups; arbitrary payload, filter and size limit",
 TESTS + "no test delivers tile groups.",
 ["src/obu.c"], [("tile group header", "src/obu.c"), ("frame completion", "src/obu.c"), ("frame size limit", "src/obu.c")],
 "Frames of up to 6 tiles in up to 3 tile groups.")
prop("P35", "Shown existing frames and new sequences act on references as the standard says",
 "Showing an existing frame outputs exactly that slot's picture, and reloads every reference slot from it when and only when it is a key frame; missing or undecodable slots are rejected. A sequence header that differs from the active one clears all reference state and signals a new sequence, an equal one changes nothing but operating parameters, and a bad one changes nothing.",
 ["histories", "inputs", "configurations"], "every slot; arbitrary slot contents, filters and pending metadata; arbitrary pairs of sequence headers of one layout",
 TESTS + "no test decodes two frames in a row.",
 ["src/obu.c"], [("show_existing_frame", "src/obu.c"), ("sequence change detection", "src/obu.c")],
 "Single frame thread; two sequence headers of the same layout.")
prop("P09", "Send, get and flush follow the API contract from every decoder state",
 "Data handed in is either taken whole or refused with 'try again' and untouched; every picture is handed out exactly once, in order, with the layer choice the settings ask for; an error is reported once and the rest of the failing packet dropped. Draining delivers all delayed pictures, flushing discards everything pending and leaves the decoder ready for new data.",
 ["histories", "inputs", "configurations"], "one API call from every decoder state within the bound, every outcome of packet parsing",
 TESTS + "no test calls the decoding API.",
 ["src/lib.c", "include/dav1d/dav1d.h"], [("send/get/flush", "src/lib.c"), ("spatial layer selection", "src/lib.c"), ("grain output", "src/lib.c")],
 "Inductive: arbitrary valid state, one call.")
prop("P10", "Input data buffers are counted, freed and annotated exactly once",
 "Every operation on input packets keeps the reference counts of buffers and user data exact: the application's free callback runs exactly once, when the last reference goes, and never while one remains; failed calls release nothing they do not own and leak nothing. Timestamps, offsets, durations and user data follow the packet.",
 ["histories", "inputs"], "one operation from every state with arbitrary counts, sizes and allocation failures",
 TESTS + "no test wraps or frees a packet.",
 ["src/data.c", "src/ref.c", "include/dav1d/data.h"], [("packet API", "src/data.c"), ("reference counting", "src/ref.c")],
 "Counts symbolic; sequences of any length follow by induction.")
prop("P11", "Pictures carry their headers and metadata and are released exactly once",
 "Every picture is allocated with the frame's true size, layout and depth, carries exactly the headers, metadata, timestamps and user data belonging to it, and announces new sequences, operating parameters and pending metadata once. Buffers go back to the application's allocator exactly once, also when allocation fails half way.",
 ["histories", "inputs", "faults"], "one operation from every state with arbitrary counts and allocator refusals",
 TESTS + "no test allocates or references a decoder picture.",
 ["src/picture.c", "src/ref.c", "include/dav1d/picture.h"], [("picture allocation", "src/picture.c"), ("picture referencing", "src/picture.c")],
 "Counts symbolic; pool modelled.")
prop("P12", "Recycled buffers are never shared, lost or freed while in use",
 "For every interleaving with other threads, a buffer taken from the pool belongs to exactly one user, is large enough, and returns to the pool or the system exactly once; the pool itself lives until its last buffer is back and no longer. Allocation failure leaves the pool consistent.",
 ["schedules", "histories", "faults"], "one operation from every pool state with 0..3 idle buffers; other threads act arbitrarily at every lock boundary",
 TESTS + "no test uses the pool.",
 ["src/mem.c", "src/mem.h"], [("buffer pool", "src/mem.c")],
 "Rely/guarantee: other threads replaced by arbitrary valid changes at each lock acquisition.")
prop("P13", "The default picture allocator gives every plane the room it promises",
 "For every picture size, layout and depth, the default allocator returns planes that are aligned, do not overlap, hold the picture rounded up to 128 pixels each way plus the promised padding, and lie inside the block allocated. Failure leaves nothing allocated.",
 ["inputs", "faults"], "all sizes up to 65536x65536, depths and layouts",
 TESTS + "no test allocates a picture.",
 ["src/picture.c", "include/dav1d/picture.h"], [("default allocator", "src/picture.c")],
 "All sizes symbolic at once.")
