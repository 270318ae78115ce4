#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

C='src/cachelot/'; S='src/server/'
prop("C01", "Cache commands behave like a sequential map",
 "For every sequence of get, set, add, replace, append, prepend, delete, touch, incr and decr on one cache, every result equals that of a plain map from key bytes to (value bytes, flags): get returns exactly the bytes and flags last stored for that very key, add stores only absent keys, replace/append/prepend only present ones and they concatenate in the right order keeping the flags of the existing item, delete removes exactly the named key and no command changes any other key. This holds for any key of 1 to 250 arbitrary bytes, any value including the empty one, keys whose hashes collide or are zero, before, during and after growth of the index.",
 ["histories","inputs"], "all operation sequences over colliding and distinct keys, all value shapes, every phase of index growth",
 "test_cache is a stub and the server tests run a handful of fixed commands with a few short keys; collisions, displaced index entries, index growth in progress and long histories are never combined with mutation.",
 [C+"cache.h",C+"item.h",C+"dict.h",C+"hash_table.h"],
 [("retrieve-then-insert/replace through an index iterator","src/cachelot/cache.h:Cache::do_* , retrieve_item, replace_item_at, insert_item_at"),("incremental expansion","src/cachelot/dict.h:search_secondary, rehash_some"),("item layout","src/cachelot/item.h:assign_value, assign_compose")],
 ["return values of the cache API","bytes, flags and cas id of the item returned by get"])
prop("C02", "Items disappear only when deleted, expired or reported as evicted",
 "With evictions enabled, a stored item stays readable with its exact contents until it is deleted, overwritten, expires, or the eviction callback is called for it; the callback fires exactly once per evicted item, while its key, value, flags are still intact, never for an item that is still stored afterwards. Storing an item that fits never fails for lack of memory (only append/prepend may be refused), the item just stored is readable right afterwards, and an item that was returned by a get is not evicted by the command that immediately follows.",
 ["histories"], "all sequences of stores of mixed sizes, reads, touches, overwrites, appends, increments and deletes that drive a cache far past its memory limit",
 "The suite only checks that a full allocator eventually evicts; it never compares what survived with what was reported evicted, and eviction happening inside incr or inside an index growth is not reached.",
 [C+"cache.h",C+"memalloc-inl.h",C+"intrusive_list.h"],
 [("whole-page eviction of the least recently used page","src/cachelot/memalloc-inl.h:alloc_or_evict, pages::page_to_reuse, pages::touch"),("eviction callback and index removal","src/cachelot/cache.h:create_item on_delete lambda"),("item re-created by incr/decr","src/cachelot/cache.h:do_arithmetic")],
 ["on_eviction callback","get results"])
prop("C03", "Without evictions nothing is lost and freed memory is fully reusable",
 "With evictions disabled a store either succeeds or is refused with an out-of-memory error, the eviction callback is never called, and a refused command leaves every stored item (including the one it addressed) readable and unchanged. Memory of deleted, overwritten, rejected and expired items becomes available again: whenever the cache has been emptied by any history of commands, exactly as many maximum-size items fit as in a brand-new cache.",
 ["histories"], "all sequences of stores, overwrites, conditional stores, appends, increments, deletes and failures on a small cache, followed by refill",
 "No test runs a cache with evictions disabled to exhaustion, and leaks of rejected items (failed add/replace/cas) only show after many commands.",
 [C+"cache.h",C+"memalloc-inl.h"],
 [("ownership of the new item during a command","src/cachelot/cache.h:ItemAutoDelete"),("block merge on free","src/cachelot/memalloc-inl.h:merge_free, free")],
 ["error codes","number of maximum-size items that fit"])
prop("C04", "The allocator never hands out overlapping or misplaced memory",
 "For every sequence of allocations, frees, in-place reallocations, touches and evicting allocations, each live block lies inside the arena within one page, is pointer-aligned, has at least the requested size, overlaps no other live block, and keeps its bytes unchanged until it is freed or reported to the eviction callback (exactly once, and only live blocks are reported). Freed memory coalesces: after everything is freed each page can again be allocated as one block, no allocation fails or evicts anything while some page holds no live block at all, and an in-place reallocation keeps the address and contents or fails leaving the block as it was.",
 ["histories","configurations"], "all allocation/free/realloc/touch sequences over boundary sizes, for several page sizes and page counts",
 "test_memalloc runs one random sequence with a fixed seed on one arena size and does not check disjointness of live blocks or coalescing in all orders.",
 [C+"memalloc.h",C+"memalloc-inl.h",C+"intrusive_list.h",C+"bits.h"],
 [("block headers and adjacency offsets","src/cachelot/memalloc-inl.h:block::split, block::merge"),("segregated free table with two-level bit index","src/cachelot/memalloc-inl.h:free_blocks_by_size"),("page LRU","src/cachelot/memalloc-inl.h:pages")],
 ["pointers returned by alloc/realloc, bytes behind them, eviction callback"])
prop("C05", "The index finds every entry through collisions, wrap-around and growth",
 "For every sequence of inserts, lookups, updates, deletes, conditional bulk removals and clears, the hash index agrees with a plain map: a key is found with its latest value if and only if it was inserted and not removed, iterators returned by a lookup or an insertion refer to the key asked for, and size counts the stored keys. This holds for arbitrary hash values, including equal ones, zero, and ones whose probe chain wraps around the end of the table, and at every step of an incremental expansion.",
 ["histories","inputs"], "all operation sequences over keys with adversarial hash values on small tables and during multi-step expansion of larger tables",
 "test_dict/test_hash_table insert sequential or random keys with a good hash; adversarial hash placement and iterator validity while an expansion is half done are never enumerated.",
 [C+"dict.h",C+"hash_table.h"],
 [("Robin Hood probing and backward-shift deletion","src/cachelot/hash_table.h:entry_for, insert, remove"),("two-table incremental rehash","src/cachelot/dict.h:search_secondary, begin_expand, rehash_some")],
 ["lookup results, iterator key()/value(), size(), capacity()"])
prop("C06", "Items live exactly until their expiration time",
 "An item stored or touched with a time-to-live of T>0 seconds is visible while less than T whole clock seconds have elapsed and never visible again from T seconds on, whatever commands run in between and wherever the clock advances between or inside commands; T=0 means it never expires and very large T never makes it expire early. Commands that modify the value (append, prepend, incr, decr) keep the remaining lifetime, storing anew replaces it, an expired item behaves as absent for every command, and flush_all removes exactly the expired items.",
 ["histories","schedules"], "all interleavings of commands with clock advances (including between any two clock readings inside one command), TTLs 0, 1, 2 and extreme values",
 "The only expiration test sleeps a few real seconds with one item; a clock tick inside a command or TTLs near the numeric limits are not reachable by sleeping.",
 [C+"item.h",C+"expiration_clock.h",C+"cache.h"],
 [("expiration time point","src/cachelot/item.h:set_ttl, ttl, is_expired"),("lazy removal on access","src/cachelot/cache.h:retrieve_item"),("bulk removal","src/cachelot/cache.h:do_flush_all")],
 ["get results at each clock value","remaining TTL"])
prop("C07", "Compare-and-swap succeeds only if the item is unchanged since it was read",
 "A cas with the unique id obtained from a read succeeds if and only if the key is still stored and no command has modified it since that read; otherwise it reports exists or not-found and changes nothing. Every successful modification (set, add, replace, cas, append, prepend, incr, decr) gives the item a fresh id never used before in that cache, while reads and touches leave it unchanged, so of any clients racing read-modify-cas on one key no update is ever lost.",
 ["histories","schedules"], "all interleavings of several clients performing read/cas/modify sequences on shared keys, including delete/re-create (ABA), expiry and eviction in between",
 "The tests perform one successful and one failing cas sequentially; races among clients and ABA histories are not enumerated.",
 [C+"cache.h",C+"item.h",S+"memcached/proto_ascii.cpp"],
 [("monotonic item timestamp","src/cachelot/cache.h:create_item, do_extend, do_cas")],
 ["cas results","unique ids returned by reads"])
prop("C08", "Counters add and subtract exactly and saturate",
 "incr and decr treat the stored value as an unsigned 64-bit decimal number and return and store exactly max(0, v-d) or min(2^64-1, v+d) in canonical decimal, keeping flags and lifetime and touching no other key. A missing key is reported as not found and creates nothing; a value that is not such a number makes the command fail without changing the item; no sequence of evictions, index growth or length changes of the number alters this.",
 ["inputs","histories"], "all pairs of boundary values and deltas, all non-numeric value shapes, sequences that force reallocation, eviction or index growth during the update",
 "Tests use a few small numbers; 20-digit values, saturation, carry into a new length and eviction while the counter item is re-created are not covered.",
 [C+"cache.h",C+"string_conv.h"],
 [("parse, saturate, re-create item","src/cachelot/cache.h:do_arithmetic"),("decimal conversion","src/cachelot/string_conv.h")],
 ["returned number","stored bytes"])
prop("C09", "Decimal conversion is exact in both directions",
 "For every supported integer type, printing a number yields its canonical decimal text within the advertised maximum length (the length helpers give exactly its length), and parsing accepts exactly the decimal texts of representable numbers (with optional leading zeros up to 20 digits, and a minus sign for signed types) and yields that number. Every other text, including empty, non-digit bytes and out-of-range numbers, is rejected with an error and never read past its end.",
 ["inputs"], "all 8- and 16-bit values, all boundary neighbourhoods of 32/64-bit values, all short texts over digits and non-digits, all 20-digit texts formed by perturbing digit positions of the limits",
 "The tests convert a few sampled numbers; the per-position overflow comparison for 20-digit numbers needs systematically varied digits.",
 [C+"string_conv.h"],
 [("table driven printing","src/cachelot/string_conv.h:int_to_str_impl"),("unrolled parsing with overflow check","src/cachelot/string_conv.h:str_to_big_unsigned, str_to_unsigned, str_to_signed")],
 ["return value / error code / bytes written"])
prop("C10", "Text protocol replies follow the memcached protocol",
 "For every sequence of well-formed text commands (get, gets, set, add, replace, append, prepend, cas, delete, touch, incr, decr, flush_all, version, stats), the server answers each with exactly the reply the memcached text protocol prescribes for the current contents: VALUE blocks carrying the exact key, flags, length, unique id and data followed by END, or STORED, NOT_STORED, EXISTS, NOT_FOUND, DELETED, TOUCHED, a number, OK. A command marked noreply has the same effect on the cache and produces no output at all.",
 ["histories","inputs"], "all sequences of commands over a few keys, values (including empty, CR/LF and NUL bytes), flags 0..65535 and noreply variants",
 "The functional test sends a few fixed commands through one client library and never compares whole reply streams, noreply variants or binary values.",
 [S+"memcached/proto_ascii.cpp",S+"memcached/proto_defs.h",S+"memcached/memcached.cpp"],
 [("command dispatch and reply formatting","src/server/memcached/proto_ascii.cpp:handle_received_data, handle_*_command, reply_with_response")],
 ["bytes in the send buffer","returned connection action"])
prop("C11", "Replies do not depend on how the request stream is split",
 "For every stream of well-formed commands, however the network splits it into received pieces (including one byte at a time and many pipelined commands in one piece), the concatenated replies and the final cache contents are the same as when every command arrives alone, and no reply is held back until unrelated further input arrives. An incomplete command has no effect and no reply until its last byte has arrived.",
 ["inputs","schedules"], "all ways of cutting multi-command streams into pieces, with commands carrying data blocks that contain CR/LF or look like commands",
 "Functional tests send one whole command per write and wait for its reply; cuts inside CRLF, inside data blocks and pipelining are timing dependent in a test.",
 [S+"memcached/proto_ascii.cpp",S+"socket_stream.h",S+"io_buffer.h",S+"memcached/conversation.h"],
 [("incomplete request rollback","src/server/memcached/proto_ascii.cpp:handle_received_data"),("receive loop","src/server/socket_stream.h:stream_connection"),("buffer savepoints and compaction","src/server/io_buffer.h")],
 ["bytes received by the client","cache contents"])
prop("C12", "Every reply is delivered to its client exactly once and in order",
 "On every stream connection the bytes the client receives are exactly the concatenation of the replies to its commands in order - nothing lost, duplicated, reordered or mixed with another client's replies - for every timing of request arrival, partial write, slow reader and connection close, with several clients connected. quit and client disconnect end only that connection, and the server keeps serving the others.",
 ["schedules","fault_sequences"], "all orders of request arrival, reader progress, short writes and disconnects for one to three clients up to a bound",
 "Timing of partial writes and overlapping sends cannot be controlled from a functional test over real TCP.",
 [S+"socket_stream.h",S+"memcached/conversation.h",S+"io_buffer.h"],
 [("asynchronous send/receive sequencing","src/server/socket_stream.h:async_receive_some, async_send_all"),("connection lifetime","src/server/socket_stream.h:shared_from_this captures")],
 ["bytes read from the client end of the socket"])
prop("C13", "Malformed input never harms the server or stored data",
 "No byte sequence a client sends - malformed, oversized, truncated, binary, or endless - crashes or hangs the server, grows its buffers past their configured maximum, alters items not named by a valid command in it, or disturbs other connections. Each rejected command is answered with one error line (ERROR, CLIENT_ERROR or SERVER_ERROR; none if it was marked noreply) or the connection is closed; afterwards a connection that is still open serves well-formed commands normally (input received together with a malformed command may be discarded), and data that belongs to a refused storage command with a well-formed command line is never executed as commands.",
 ["inputs"], "all command lines assembled from a grammar of valid and corrupted tokens, all short byte strings over protocol-relevant bytes, over-long lines and data blocks at the buffer limits",
 "The tests send only well-formed commands.",
 [S+"memcached/proto_ascii.cpp",S+"memcached/memcached.cpp",S+"memcached/proto_binary.cpp",S+"socket_stream.h",S+"io_buffer.h",C+"slice.h"],
 [("error replies and buffer discards","src/server/memcached/proto_ascii.cpp:handle_received_data catch blocks"),("buffer limit","src/server/io_buffer.h:ensure_capacity")],
 ["error replies, later commands on the same connection, process liveness"])
prop("C14", "UDP replies match their request",
 "Each UDP datagram carrying one complete command is answered by exactly one datagram, sent to its sender, that starts with the request's own frame header and contains exactly the reply to that command (as long as the reply fits one datagram); datagrams with a noreply command, an invalid or incomplete frame header, a fragment of a bigger request or an incomplete command are dropped without reply, an invalid command gets at most one error datagram, and none of them influences any other reply. This holds for every sequence of valid and invalid datagrams from any number of clients and for every timing of sends.",
 ["histories","inputs","schedules"], "all sequences of valid, noreply, truncated, fragmented, bad-header and oversized datagrams up to a bound, from two clients, with delayed sends",
 "There is no UDP test at all.",
 [S+"socket_datagram.h",S+"memcached/conversation.h"],
 [("frame header echo","src/server/memcached/conversation.h:UdpServer::handle_udp_frame_header"),("shared buffers and send sequencing","src/server/socket_datagram.h:async_receive, async_send_all")],
 ["datagrams received by the clients"])
prop("C15", "The C interface honours its contract",
 "For every sequence of C API calls each function reports success, not-found and errors exactly as the corresponding cache operation, fills the error structure on failure with a non-empty terminated description and clears it on success, and tolerates null error and result pointers. Item accessors return the stored key, value and time-to-live, the eviction callback is invoked for evicted items only while installed, caches created side by side are independent, and destroying them releases all their memory.",
 ["histories","inputs"], "all call sequences up to a bound over two caches, null/non-null optional arguments, failing and succeeding calls",
 "test_c_api performs one long happy-path run on a single cache.",
 [C+"c_api.cpp",C+"c_api.h"],
 [("exception to error-struct translation","src/cachelot/c_api.cpp"),("callback installation","src/cachelot/c_api.cpp:cachelot_on_eviction_callback")],
 ["return values, error structures, callback invocations"])
prop("C16", "Statistics count exactly what happened",
 "After every sequence of commands the statistics are consistent with the history: per-command counters equal the number of such commands executed by the cache, each splits exactly into its hit/miss or stored/not-stored counters (a command that ends in an error counts as issued only), the item count equals the number of items held (expired ones until they are removed), used memory returns to its initial value when the cache is empty, and the eviction counter equals the number of evicted items. Reading statistics changes nothing and resetting returns counters to zero.",
 ["histories"], "all command sequences up to a bound including evictions, expirations and failures",
 "The suite never checks any statistics value.",
 [C+"stats.h",C+"stats.cpp",C+"cache.h",C+"memalloc-inl.h",S+"memcached/proto_ascii.cpp"],
 [("counter updates","src/cachelot/cache.h STAT_INCR uses"),("memory accounting","src/cachelot/memalloc-inl.h:checkout, free, alloc_or_evict"),("published values","src/cachelot/cache.h:publish_stats")],
 ["stats values and the stats command"])
prop("C17", "Running out of process memory never corrupts the cache or server",
 "If any request for heap memory made by the cache, the C interface, the protocol layer or a connection fails (alone or together with all later ones within the same operation), the command in progress reports an error (or its connection is closed) and every item stored before is still readable and unchanged, the item of the interrupted command being in its old or new state; later commands work normally. No such failure terminates the process, leaks the cache memory or leaves the index or buffers in a broken state.",
 ["fault_sequences"], "every position at which a heap allocation can fail (and all later ones fail too) in histories that grow the index, grow I/O buffers, create caches and connections",
 "No test injects allocation failures.",
 [C+"dict.h",C+"hash_table.h",C+"cache.h",S+"io_buffer.h",S+"memcached/proto_ascii.cpp",C+"c_api.cpp"],
 [("expansion rollback","src/cachelot/dict.h:begin_expand"),("buffer growth","src/server/io_buffer.h:ensure_capacity"),("item ownership on exceptions","src/cachelot/cache.h:ItemAutoDelete")],
 ["error replies, later reads"])
prop("C18", "Every configuration is either refused or works",
 "Creating a cache with any combination of memory limit, page size, index size and eviction mode either fails with a clear error or yields a cache in which all memory is usable: an item of the maximum size fits into every page, items stored across the entire memory, including beyond 4 GiB, keep their contents and the index grows as needed. Unusable combinations (zero, not a power of two, fewer than four pages, too small pages, pages over 2 GiB) are refused without crashing, by the library as well as by the server's command line. Moving a cache object preserves the cache.",
 ["configurations"], "all combinations of boundary and ordinary values of the four parameters, including memory limits above 4 GiB",
 "Tests create two or three fixed configurations.",
 [C+"cache.h",C+"memalloc-inl.h",C+"dict.h",S+"main.cpp"],
 [("parameter validation","src/cachelot/cache.h:Cache::Create"),("command line","src/server/main.cpp:parse_cmdline, validate"),("page number computation","src/cachelot/memalloc-inl.h:pages::page_no_from_addr")],
 ["exceptions from creation, contents of items stored in every page"])
prop("C19", "I/O buffers deliver bytes once, in order, within their limit",
 "For every sequence of writes, partial reads, searches for a terminator, savepoints with rollback, compaction and reset, an I/O buffer returns exactly the confirmed bytes in order, exactly once, and rollback restores exactly the state at the savepoint. Space handed out for writing is at least what was asked for, growth preserves unread bytes, capacity never exceeds the configured maximum, and a request beyond it fails leaving the contents untouched.",
 ["histories"], "all operation sequences up to a bound with sizes around the growth steps and the maximum",
 "test_io_buffer (if any) covers single write/read; rollback combined with growth and compaction is not enumerated.",
 [S+"io_buffer.h",C+"slice.h"],
 [("positions and growth","src/server/io_buffer.h:ensure_capacity, compact, rollback_*")],
 ["bytes read, capacity, exceptions"])
prop("C20", "Items of every size are stored intact or refused cleanly",
 "For every key length and value length, a store, append, prepend or incr either succeeds and the item reads back byte for byte, or is refused with an item-too-big or key-too-long error; a refusal, at any size, leaves all stored items unchanged (an oversized store also evicts nothing), and no accepted size damages neighbouring items. Every item whose total size fits the documented page limit minus fixed overhead is accepted in an otherwise empty cache.",
 ["inputs","configurations"], "all value lengths from 0 past the page size for several page sizes and key lengths, built directly and by append/prepend, with neighbours in place",
 "The tests store small items only; the boundary between page size and usable page size is never approached.",
 [C+"cache.h",C+"memalloc-inl.h",C+"item.h"],
 [("size check before allocation","src/cachelot/cache.h:create_item, do_extend"),("block size classes","src/cachelot/memalloc-inl.h:free_blocks_by_size::position_from_size")],
 ["error codes, item bytes, neighbours"])
prop("C21", "The server process serves one cache on its endpoints and obeys its signals",
 "Started with any combination of TCP port, UDP port and unix socket, the server opens exactly these endpoints (port 0 disables one) and all of them operate on one and the same cache: what is stored through one is read through every other. Clients that come, leave in the middle of a command or vanish without reading their replies, and worthless datagrams, disturb neither the other clients nor the stored data. SIGUSR1 prints the current statistics to standard output, every time it is sent, and the server goes on serving; SIGTERM, SIGINT and SIGQUIT end it with status 0 at any moment, also after SIGUSR1 and with clients connected, and it can be started again on the same ports at once. An endpoint that cannot be opened (port or path in use, impossible path or number) ends the server with an error message and a non-zero status.",
 ["histories","configurations","schedules"], "all combinations of endpoints, all short sessions of requests, disconnects and signals, every ending signal",
 "The server tests start one server with one TCP endpoint and never send it a signal or use two endpoints together.",
 [S+"main.cpp",S+"socket_stream.h",S+"socket_datagram.h",S+"memcached/conversation.h"],
 [("signal handling","src/server/main.cpp:main"),("endpoints","src/server/main.cpp:parse_cmdline, main; stream_server::start, datagram_server::start")],
 ["exit status, standard output, replies on real sockets"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
