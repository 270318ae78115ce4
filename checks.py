"""Registry of checks: how each is built and what it explores."""
ALPHA = "every choice sequence of every scenario is executed on the real code and compared step by step with the reference model; a state is a distinct abstract model state reached, a trace one complete execution"
CHECKS = {}
NOTE = ("Every execution within the bounds is run on the real code, compiled from /repo's working tree, and compared with a reference model; "
        "nothing outside the bounds is claimed. Trusted: the explorer, the reference model, the compiler, the interposed clock/heap/socket calls.")
def check(pid, bounds, bounds_thorough=None, level="model_checking", technique="stateless explicit-state model checking of the implementation against a reference model", note=NOTE, **kw):
    CHECKS[pid] = dict(sources=[pid.lower() + ".cpp"], level=level, rule=ALPHA, bounds=bounds, technique=technique, note="Bounds: " + bounds + ". " + note, **kw)
    if bounds_thorough:
        CHECKS[pid]["bounds_thorough"] = bounds_thorough

check("C01", 'all sequences of 4 commands (12 kinds x 3 keys) for four placements of colliding/zero/wrapping hashes, 5 over 2 keys; all 5-step insert/delete/append histories over 6 keys on indexes of 1-4 slots; 3 steps from every fill level around the threshold of a 16-slot index; 2-3 steps around the start and inside the multi-step expansion of a 2048-slot index for 4 hash placements; every key length x 26 value lengths; keys of every length that share the hash and differ in one byte (also after a NUL byte); items created longer than assigned; 640-command base histories with every single-command deviation',
      'one step deeper in every enumeration, base histories of 2048 commands')
check("C05", 'every placement of 7 keys over 4 hash values in an 8-slot table (and 5 further placement families up to 14 keys in 16 slots) with every ordered pair/triple of removals; every 4-step history on dicts of 1-16 slots for 32- and 64-bit options, around every threshold; 2-3 steps at start and in the middle of expansions of 512-4096 slots for 5 hash placements; 1024-step churn with every single deviation; tables of up to 65536 keys grown, read back, thinned out',
      'one step deeper, churn of 4096 steps')
check("C04", 'all sequences of 3-5 operations (alloc with/without eviction, free, realloc in place, touch) x 3-5 sizes from 6 initial fill states on 256/512/1024/4096-byte pages; every size of pages of 256-4096 bytes with partner sizes; all orders of freeing and requesting blocks of one size class; 256-step base histories with every single deviation',
      'one step deeper; every critical size of 16 MiB pages')
check("C02", 'all sequences of 3-4 commands from every fill pattern of a memory of 4 pages, 4 hash placements; 5 steps with clock ticks; 3 steps while a 2048-slot index expands under evictions; 300-command base histories under constant pressure with every single deviation; memories of 16-512 pages overfilled',
      'one step deeper, base histories of 1000 commands')
check("C03", 'all sequences of 4 commands (core alphabet) / 3 (full alphabet) / 4 (with clock ticks) from every fill pattern of a memory that may not evict, then emptied by one of several ways and refilled to the full number of maximum-size items; memories filled to the brim with each size of 3 page sizes; 300-command base histories with every single deviation',
      'one step deeper, base histories of 1000 commands, 64 KiB pages')
check("C06", 'all sequences of 4 commands over 2-3 keys (5 over one) including clock advances of 0-3 s; 3 commands with the clock ticking inside one of them before any of its readings of the time; lifetimes of every magnitude 1..2^32-1 at clock readings up to the 32-bit limit; all expirations of crowds of 7-60 items in growing indexes',
      'one step deeper')
check("C07", "all interleavings of 2 clients' gets/cas with 21 kinds of modification (depth 4; depth 6 with 9 kinds), 3 clients (depth 5), 2 keys (depth 4); depth 5 with evictions, expiry and re-creation; all interleavings of optimistic counters 2x2, 2x3, 3x1; 3 steps around an expanding 2048-slot index; ids after 2^8..2^24 modifications",
      'one step deeper, counters 3x2')
check("C08", 'every pair of ~60 boundary values and deltas and back, with and without evictions; all pairs below 400; every text shape that is not a number; all sequences of 4 commands over 3 colliding keys; 4-5 steps under memory pressure for 4 hash placements; 3-4 steps around index growth at 16 and 2048 slots; clock ticks inside updates',
      'one step deeper; all pairs below 2200')
check("C09", 'all values of the 8- and 16-bit types; all texts of 1-2 arbitrary bytes, of 3-7 characters over alphabets of 24 to 5 characters, for all 8 integer types; neighbourhoods (+-300) of every power of two and multiple of a power of ten; every digit-group pattern; every one-digit deviation of the longest texts; all lengths to 59; length of the text of every number printed; texts end at an inaccessible page',
      'all values of the 32-bit types, all 3-byte texts, two-digit deviations')
check("C20", 'every value length of pages up to 1 KiB and all critical lengths of 4 and 64 KiB pages x critical key lengths; memory packed with items of one size for every size class; append/prepend/incr across every limit; refusals at every moment, with and without evictions, arena between guard pages; lengths around 2^14..2^21 in 4 MiB pages',
      '1 MiB pages')
check("C19", 'all sequences of 5 operations (4 in the wide alphabet) for 8 initial/maximum sizes, blocks ending at an inaccessible page; with allocation failing at any point; every text of up to 8 characters over 3 letters in two pieces x every short terminator; streams pumped with every (write, read, compaction) combination',
      'sequences of 6, texts of 10')
check("C15", 'all sequences of 5 C calls on one key, 4 on two keys (all functions, with error structure, and without to depth 3); two caches side by side, callbacks installed/replaced/reset under memory pressure to depth 4-6; every combination of creation options; all key/value shapes; every pair of 17 lengths up to 1.1 MB for value and appended/prepended text; items created and dropped unsaved; heap use of every call balanced',
      'one step deeper', c_api=True)
check("C10", 'all sequences of 4 commands over one key and 3 over two keys of the full text command set with noreply variants; every storage command x key/value/flag/lifetime shapes; every multi-get of up to 4 keys, wide ones of up to hundreds; counters at all boundaries; values around every power of two and ten up to 1 MiB',
      'one step deeper', server=True)
check("C11", 'all streams of 2 commands cut at every 2 positions, single commands cut at every 3, triples cut at every position, all triples byte by byte, all pipelines of 4 commands in one piece; long pipelines at every buffer offset; endless pipelines rolling over the end of the buffer; values of every critical size cut around every critical position, values up to 1.1 MB cut at command ends and powers of two; real connection objects',
      'triples cut at every 2 positions, pairs at every 3, pipelines of 5', server=True)
check("C12", 'all interleavings of client sends, partial client reads and single event-loop steps: 2 clients with 12 KB replies to depth 7, one to depth 10, with 70-136 KB replies to depth 5-7, 2-3 clients with small commands to depth 6-9, with half-close and close to depth 5-7; every combination of the sizes of the first 3 short writes; racing counters to depth 10; connections serving thousands of commands; connect/close/quit/failed accept through the real acceptor to depth 6',
      '2-3 steps deeper', server=True)
check("C13", '12 command forms with every field replaced by every defect; all inputs of 1-5 bytes over 7 critical bytes, of 1-4 words over 15 words; every declared/actual data length combination; lines and data of every length around 3 receive limits, endless input, impossible lengths, replies beyond the send limit; 4-step mixes of good and bad input next to a second connection',
      'bytes to length 7 over 8 bytes, words to 5, every line length, mixes of 5', server=True)
check("C14", 'all sequences of 3 datagrams of every kind (valid, fragments, bad headers, malformed, noreply, oversized) from 1-2 clients, 5 of 8 kinds; all interleavings of arrivals and event-loop steps with delayed sends to depth 6; requests and replies of every critical size; every value of every header byte; deterministic network below the real UDP server',
      'one to two steps deeper', server=True)
check("C16", 'all histories of 4 commands over one key, 3 over 2-3 keys, in ample and tiny memories with and without evictions; 6 stores under pressure; 300 growing stores; index expansion with expired items; the allocator driven directly by 4-step histories; resets at every point; all 4-command sessions through the stats command; 2^16 commands of each kind',
      'one to two steps deeper', server=True)
check("C17", 'every single failing heap request and every suffix of failing requests: in 40- and 400-step histories growing the index from 4 sizes, in every operation at every fill level to 40, in creation, in C API sessions, in protocol sessions, on live connections, accepts and datagrams',
      'histories of 1500 steps, fill levels to 80, C sessions of 120 steps', server=True, c_api=True)
check("C18", 'every combination of critical memory limits, page sizes, index sizes and eviction modes, each accepted one filled, overfilled, emptied and reused; every power of two: pages 256 B-1 MiB, 4-512 pages, index 1-4096; memories of 2-64 GiB (reserved, edges written); 3-step mixes of item sizes in them; index sizes to 2^22; moves at every point of a history; the server program with every command-line combination',
      '5-step mixes in large memories', server=True, program=True)
check("C21", 'the real server process on real sockets: every combination of TCP/UDP/unix endpoints x number of SIGUSR1 x ending signal; all 3-step sessions of 12 actions (requests through each endpoint, halves of commands, leaving and vanishing clients, worthless datagrams, SIGUSR1) on two layouts ended by each of 3 signals; restarts with 0-20 clients left; every kind of unusable endpoint; crowds of simultaneous clients; 4-step mixes of traffic and signals not waited for',
      'sessions of 4 steps, mixes of 5', server=True, program=True)
