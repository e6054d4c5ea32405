def define(prop):
    CSC = "src/server/pdc_client_server_common.c"
    CSH = "src/server/include/pdc_client_server_common.h"
    SRV = "src/server/pdc_server.c"
    META = "src/server/pdc_server_metadata.c"
    DATA = "src/server/pdc_server_region/pdc_server_data.c"
    RC = "src/server/pdc_server_region/pdc_server_region_cache.c"
    TP = "src/commons/utils/thpool.c"
    prop("W01", "Every RPC message arrives with every field intact",
         "Every request and reply message is carried completely: for any field values, what the receiver decodes equals "
         "what the sender encoded, field by field, at the field's full width and in the same order. Variable-length "
         "parts are carried with exactly the length their count announces, into storage large enough for them. A message "
         "that could not be encoded or decoded completely is reported as failed, never as success.",
         ["inputs", "fault_sequences"], "every message type, every field value, every point at which carrying one field can fail",
         "The runnable tests contain no RPC at all, and an integration test would use small values for which a narrowed or "
         "dropped field goes unnoticed.",
         [CSH, CSC, "src/api/pdc_analysis/include/pdc_analysis_and_transforms_common.h",
          "src/api/pdc_transform/include/pdc_transforms_common.h"],
         [("hg_proc_* routines", CSH), ("hg_proc_pdc_query_xfer_t", CSC)],
         "path-sensitive dataflow over each serialisation routine (field coverage, width, order, error propagation)",
         "All 109 routines of both libraries, used or not, both directions, all paths; Mercury's own primitives are trusted.")
    prop("W02", "Client and server agree on the message type of every RPC",
         "For every remote operation, the request the sender fills, the request the registered operation carries and the "
         "request the handler reads are the same message type, and likewise for the reply. An operation's name is "
         "registered once with one request type, one reply type and one handler, and every operation a peer invokes is "
         "registered by that peer before use.",
         ["programs", "inputs"], "every registration, every call that sends a request, every handler and reply callback",
         "The types meet through untyped pointers, so a mismatch compiles; it corrupts memory only for particular field "
         "values, and no runnable test sends an RPC.",
         [CSC, "src/api/pdc_client_connect.c", SRV, DATA],
         [("PDC_*_register", CSC), ("HG_Forward sites", "src/api/pdc_client_connect.c"), ("*_cb handlers", CSC)],
         "type agreement over the resolved call graph: registration, forward, handler and reply sites",
         "Every registration, forward, reply and decode site of the client and server libraries is resolved and compared.")
    UT = "src/utils/pdc_region_utils.c"
    prop("R01", "Region overlap, containment and intersection follow set semantics",
         "For any two regions of one to three dimensions with sizes of at least one: they are reported as overlapping "
         "exactly when they share an element, their computed intersection is exactly the set of shared elements, one is "
         "reported as contained in the other exactly when all its elements are, and two regions are reported identical "
         "exactly when every offset and size is equal. Regions that merely touch do not overlap.",
         ["inputs"], "every offset and size (all orderings of the end points in every dimension) that does not wrap",
         "A test samples coordinates; boundary cases (touching, nested, equal starts) in one of several dimensions are easily "
         "missed, and cached data is copied according to these answers.",
         [UT, CSC, "src/server/pdc_server_region/pdc_server_region_cache.c"],
         [("check_overlap, PDC_region_overlap_detect, detect_region_contained", UT),
          ("PDC_get_overlap_start_count, PDC_is_contiguous_region_overlap", CSC),
          ("PDC_check_region_relation", "src/server/pdc_server_region/pdc_server_region_cache.c")],
         "abstract interpretation over the order domain of region end points (complete finite partition)",
         "Dimensions 1 to 3 (4 is reported as overlapping by design); offset+size is assumed not to wrap.")
    CA = "src/server/pdc_server_region/pdc_server_region_cache.c"
    TR = "src/server/pdc_server_region/pdc_server_region_transfer.c"
    RT = "src/api/pdc_region/pdc_region_transfer.c"
    prop("R02", "Copying a region moves exactly its elements to the right place",
         "Every step that moves region data between buffers, or between a buffer and an object's file, moves exactly the "
         "elements of the region, each between the positions its coordinates denote: cutting a sub-region out of a "
         "region's buffer, copying the shared part of two regions, packing a user buffer for transfer and unpacking it, "
         "laying an object out in its file, and merging cached one-dimensional writes (the later write wins and no element "
         "is lost or moved). What a write places in an object's file, a read of the same elements finds.",
         ["inputs"], "every offset, size, object extent and element size, one to three dimensions",
         "Tests sample a few shapes, mostly cubes with equal extents, for which swapped strides or a wrong extent still "
         "give the right answer.",
         [UT, CA, TR, RT],
         [("memcpy_subregion, memcpy_overlap_subregion", UT), ("PDC_region_cache_copy, merge_requests", CA),
          ("PDC_Server_transfer_request_io", TR), ("pack_region_buffer, release_region_buffer", RT)],
         "abstract interpretation with loop summarisation to an affine copy normal form, compared with the row-major specification",
         "All shapes and element sizes symbolically; merging is decided for up to three cached regions over every order of "
         "end points. offset+size and byte sizes are assumed not to wrap.")
    prop("R03", "A read returns the last value written to every element",
         "Data written to an object region is what later reads of any overlapping region see, whether the data is still "
         "cached by the server, partly cached, or already in storage: a write updates every cached copy of the elements it "
         "covers, a read the cache cannot serve completely is answered only after the object's cached writes reached "
         "storage, flushing writes every cached region before dropping it, and storing or reading regions in an "
         "object's region files uses the stored element positions, newest data first. A transfer cut short by the system "
         "continues where it stopped and never counts as complete.",
         ["inputs", "histories"], "every relation between the written, cached, stored and read regions",
         "A stale copy or a skipped flush shows only for particular overlaps of several writes; the runnable tests never "
         "start a server.",
         [CA, TR, DATA],
         [("PDC_region_cache_register, PDC_transfer_request_data_write_out, PDC_region_fetch, PDC_region_cache_flush_by_pointer", CA),
          ("PDC_Server_data_write_out, PDC_Server_data_read_from, PDC_Server_posix_write", DATA)],
         "abstract interpretation over region relations and affine copies of each cache and storage operation",
         "Per operation, with up to two cached or stored regions and every relation between them, 1 to 3 dimensions; "
         "single-threaded semantics (concurrency is N01).")
    prop("P01", "A split transfer covers its region exactly, part by part",
         "A region transfer that is spread over several data servers is cut into parts that are disjoint and together are "
         "exactly the region; each server receives the part that lies in its own share of the object, with the data, "
         "offset and size belonging to that part. Starting, polling and waiting (singly or in bulk) address every part at "
         "the server it was sent to, and the data of a read reaches the user's buffer only after every part arrived, each "
         "part at the position it was cut from.",
         ["inputs"], "every object extent, region offset and size, direction, partition kind and number of parts",
         "Boundary cases (uneven extents, regions starting or ending on a share boundary) and multi-server runs are outside "
         "the runnable tests, which start no server.",
         [RT, UT, "src/api/pdc_client_connect.c"],
         [("static_region_partition", RT), ("prepare_start_all_requests", RT),
          ("PDCregion_transfer_start, PDCregion_transfer_status, PDCregion_transfer_wait, PDCregion_transfer_wait_all", RT)],
         "abstract interpretation of the partition routine over the order domain of share boundaries and region end points; "
         "of the sending and completing routines over symbolic parts",
         "One to four servers with a symbolic extent/servers quotient; a transfer of up to three parts. The aggregated send "
         "of already prepared packages is covered by S01 where claimed.")
    IF = "src/utils/pdc_interface.c"
    prop("I01", "An identifier means one open object and nothing else",
         "Every container, object, property, region and transfer request that is created gets an identifier of its own, "
         "which finds exactly that object until its last reference is dropped; then the object is released once and the "
         "identifier is unknown, and it is never handed out again. Closing drops exactly one reference of the object given, "
         "and a buffer mapping holds one reference of its object and region for as long as it exists. Every operation "
         "refuses an identifier that is unknown or was closed instead of touching memory through it, and a creation that "
         "fails leaves nothing registered.",
         ["inputs", "histories"], "every sequence of creations, closings and uses of identifiers of any kind",
         "Needs particular sequences (reusing a closed id, closing the first, middle or last of several objects, failing "
         "allocations); most of these functions run only with servers, which no runnable test starts.",
         [IF, RT, "src/api/pdc_region/pdc_region.c", "src/api/pdc_obj/pdc_obj.c", "src/api/pdc_obj/pdc_cont.c",
          "src/api/pdc_obj/pdc_prop.c", "src/api/pdc_client_connect.c"],
         [("PDC_find_id, PDC_id_register, PDC_inc_ref, PDC_dec_ref, PDC_id_list_clear", IF),
          ("PDCbuf_obj_map, PDCbuf_obj_unmap", "src/api/pdc_region/pdc_region.c"),
          ("every caller of PDC_find_id and its wrappers", "src/api/pdc_client_connect.c")],
         "shape analysis of the registry operations by abstract interpretation over symbolic lists (identifiers as opaque "
         "sequence numbers, heap typestate); path-sensitive null and reference-count typestate at every caller",
         "Lists of up to three entries (the operations touch one entry and its neighbours); single-threaded semantics; "
         "sequence numbers below 2^55, which the code asserts.")
    prop("T01", "A transfer request is completed exactly once and leaves nothing behind",
         "Once started, a region transfer request is in progress until exactly one of wait, wait_all, a status query that "
         "reports completion, its close or the close of its object completes it; each part sent to a data server is waited "
         "for once, at the server it was sent to, and its buffer stays valid until then. Data read has then reached the "
         "user's buffer, all memory of the transfer has been released exactly once, the object's list of pending transfers "
         "holds exactly the requests in progress, and the request may be started again. Starting a request that is unknown "
         "or in progress is refused and starts nothing (in a bulk start: no request at all), and a part that a server "
         "refuses is reported.",
         ["inputs", "histories", "fault_sequences"], "every order of creating, starting, querying, waiting for and closing requests, "
         "alone or in bulk, for all partition kinds, directions and consistencies, and every failing server call",
         "The operations need servers, which no runnable test starts; the mistakes show as corruption, leaks or hangs after "
         "particular call sequences.",
         [RT],
         [("PDCregion_transfer_create, PDCregion_transfer_start, PDCregion_transfer_status, PDCregion_transfer_wait, "
           "PDCregion_transfer_close", RT),
          ("PDCregion_transfer_start_all, PDCregion_transfer_wait_all, prepare_start_all_requests, register_metadata, "
           "finish_start_all_requests", RT),
          ("attach_local_transfer_request, remove_local_transfer_request", RT), ("PDC_obj_close", "src/api/pdc_obj/pdc_obj.c")],
         "heap typestate and shape analysis by abstract interpretation of the request operations under a most general client; "
         "buffer contents and server answers abstract, call sequences enumerated to a bound",
         "One or two requests on one or two objects, three servers, up to three calls after creation (four thorough); sizes "
         "fixed per configuration; single-threaded client.")
    RH = "src/server/pdc_server_region/pdc_server_region_request_handler.h"
    RS = "src/server/pdc_server_region/pdc_server_region_transfer.c"
    prop("T02", "A data server serves every transfer and answers every wait exactly once",
         "A data server gives each region it is asked to transfer a new id, consecutive within one message, and hands the "
         "region to the storage exactly once: the right object with its dimensions, the region's own offset and size, the "
         "element size and, for a write, exactly the client's bytes; for a read the stored bytes go back in the order of the "
         "regions. A wait (for one id or a list) is answered exactly once, as soon as everything it waits for is complete and "
         "not before; ids that are complete or unknown are not waited for. A status query is answered PENDING until the "
         "transfer is complete, COMPLETE once, and NOT_FOUND afterwards. Once a request is finished the server has released "
         "everything it held for it, and no lock stays held.",
         ["histories", "schedules", "inputs"], "every order of transfer requests, arrivals of their bulk data, waits and status queries",
         "No runnable test starts a server; a wait that is never answered, answered early or answered for the wrong list "
         "entry depends on the order in which bulk data, waits and completions meet.",
         [RH, RS],
         [("transfer_request_cb, transfer_request_all_cb and their bulk callbacks", RH),
          ("transfer_request_status_cb, transfer_request_wait_cb, transfer_request_wait_all_cb", RH),
          ("transfer_request_metadata_query_cb, transfer_request_metadata_query2_cb", RH),
          ("PDC_commit_request, PDC_finish_request, PDC_check_request, PDC_try_finish_request", RS), ("parse_bulk_data", RS)],
         "typestate and shape analysis by abstract interpretation of the RPC handlers and bulk callbacks under a most general "
         "environment; Mercury, locks and storage modelled at their calls, data abstract, orders enumerated to a bound",
         "Up to three transfer messages and three waits or queries, in every order; at most one outstanding wait per id; each "
         "handler runs to its end before the next starts (the locks it takes are checked).")
    MQ = "src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c"
    prop("M01", "The region directory answers every query from all regions written before",
         "A metadata server records every region a write query names, once and with its data server, unless the region lies "
         "inside one it has already recorded for that object; a region placed dynamically goes to a data server that was "
         "given the fewest bytes so far. The answer to a query lists for each region asked, in order, exactly the recorded "
         "regions of that object that overlap it, each with its data server and the overlapping part, and none for an unknown "
         "object; it has exactly the size reported with it, a new id, and is handed out once, to the query with its id. After "
         "a checkpoint and a restart every region of every object is still recorded. The directory is only used under its "
         "lock and loses no memory.",
         ["histories", "inputs"], "every history of queries, fetched answers and restarts, and every way the regions lie to each other",
         "The directory exists only inside a server, and which entries it needs depends on how regions written at different "
         "times overlap.",
         [MQ], [("transfer_request_metadata_query_parse, transfer_request_metadata_query_append, metadata_query_buf_create", MQ),
                ("transfer_request_metadata_query_lookup_query_buf", MQ),
                ("transfer_request_metadata_query_checkpoint, transfer_request_metadata_query_init", MQ)],
         "abstract interpretation of the directory's operations with symbolic coordinates; the relation between two regions is a "
         "partition split on demand and closed under its laws; answers compared byte by byte with the contract",
         "All histories of four operations (five thorough) over a small alphabet and selected longer ones, up to three servers "
         "and three dimensions. The overlap and containment predicates are taken by contract (decided by R01).")
    CL = "src/commons/collections/"
    prop("K01", "The containers keep exactly what they are given",
         "Vectors, double-ended queues, stacks, hash tables (both copies) and sets behave as the sequence, map or set they stand "
         "for, whatever was inserted and removed before: elements come back in order and none is lost, duplicated or replaced when "
         "the container grows, shrinks or wraps; a lookup finds the value last inserted under an equal key and nothing else; an "
         "insertion under an equal key replaces key and value; counts, iteration, conversion to an array, union and intersection "
         "give every element exactly once. Replaced, removed and remaining keys and values are handed to the registered free "
         "functions exactly once, freeing a container releases all its memory, no operation touches memory outside the container, "
         "and an operation that finds no memory changes nothing. Keys that compare equal have equal hashes, and the "
         "comparison functions agree with equality.",
         ["histories", "inputs", "fault_sequences"], "every sequence of operations, every assignment of hashes to keys, every failing allocation",
         "Growth, wrap-around, collisions and failing allocations only occur after particular sequences of operations.",
         [CL + "pdc_hash_table.c", CL + "pdc_set.c", CL + "pdc_vector.c", CL + "pdc_deque.c", CL + "pdc_stack.c", "src/server/pdc_hash-table.c",
          CL + "pdc_compare.c", CL + "pdc_hash.c"],
         [("hash_table_insert, hash_table_remove, hash_table_enlarge, hash_table_iter_next", CL + "pdc_hash_table.c"),
          ("hash_table_insert, hash_table_remove, hash_table_enlarge", "src/server/pdc_hash-table.c"),
          ("set_insert, set_remove, set_union, set_intersection, set_to_array", CL + "pdc_set.c"),
          ("pdc_vector_add, pdc_vector_get", CL + "pdc_vector.c"), ("PDC_deque_push_front, PDC_deque_pop_back", CL + "pdc_deque.c")],
         "shape analysis: abstract interpretation of every operation from every canonical heap shape reachable within a bound on the "
         "number of elements, elements symbolic and keys known only by equality and hash, compared with the abstract value",
         "Closed under all histories of at most 34 elements in a deque, 70 in a stack, 110 in a vector; maps and sets over three "
         "key classes with colliding and distinct hashes, and growth up to 140 keys (400 thorough).")
    prop("B01", "A Bloom filter never denies a member",
         "A counting or scaling Bloom filter reports every key that was added more often than it was removed, whatever other keys "
         "were added and removed and whatever the hash function gives, as long as no counter exceeds fifteen; a new filter, and a "
         "filter from which everything added was removed, is empty. A scaling filter keeps its members when it grows. No "
         "operation reaches outside the filter's memory, and freeing a filter releases all of it.",
         ["histories", "inputs"], "every sequence of additions and removals, every hash function",
         "A false denial makes the server accept a second object of the same name; it needs particular collisions or a filter that has grown.",
         ["src/server/dablooms/pdc_dablooms.c"],
         [("counting_bloom_add, counting_bloom_remove, counting_bloom_check, scaling_bloom_add, new_counting_bloom_from_scale",
           "src/server/dablooms/pdc_dablooms.c")],
         "abstract interpretation of the filter operations from every reachable filter state, keys known only by their hash values",
         "Three keys with at most three copies, four capacities and error rates, distinct, equal and degenerate hash values; one key up to "
         "the counters' limit.")
    MD = "src/server/pdc_server_metadata.c"
    prop("O01", "The metadata directory holds exactly what clients created and did not delete",
         "After any sequence of requests a metadata server's directory agrees with the plain record of them. An object is found under its "
         "name and time step and under its identifier, with the attributes it was given, exactly until it is deleted; the same object "
         "(same name, time step, user and application) is never held twice and every object and container gets an identifier of its own. "
         "Deleting and updating touch exactly the object meant, whatever other names have the same hash or share a bucket. A query by "
         "name, user, application, time steps, dimensions or tag and a key-value query list exactly the objects that satisfy it. Key-value "
         "tags are kept per object or container, and a container lists exactly the objects added and not removed. No request reaches "
         "outside the memory it works on.",
         ["histories", "inputs"], "every sequence of create, update, delete, tag and container requests, whatever names share a hash value",
         "The tests need a running server and use names without colliding hashes; Bloom filters appear after 64 such names.",
         [MD, "src/server/pdc_hash-table.c"],
         [("PDC_insert_metadata_to_hash_table, PDC_delete_metadata_from_hash_table, PDC_Server_delete_metadata_by_id, PDC_Server_update_metadata", MD),
          ("PDC_Server_get_partial_query_result, PDC_Server_get_kvtag_query_result, PDC_Server_search_with_name_timestep", MD),
          ("PDC_Server_add_kvtag, PDC_Server_get_kvtag, PDC_Server_del_kvtag", MD),
          ("PDC_Server_create_container, PDC_Server_container_add_objs, PDC_Server_container_del_objs", MD)],
         "abstract interpretation of every directory operation over all histories of up to five requests and chosen long ones, compared with an abstract directory after each step",
         "Names related by equal hash, equal bucket or not at all; up to four objects or containers in all histories, 64 to 140 objects in long "
         "ones. The Bloom filter is taken to deny no member (B01), names to fit their fields, and requests to be handled one at a time.")
    SU, QU = "src/commons/utils/string_utils.c", "src/commons/utils/query_utils.c"
    prop("X01", "Text patterns and tag queries select exactly the strings they describe",
         "A pattern with a * in front, behind or on both sides matches exactly the strings that end with, start with or contain the rest, "
         "and without one exactly the equal string. Prefix, suffix, substring, position, reversal and slices of a text are what their names "
         "say, and splitting a text gives exactly the pieces between the delimiters and always ends. A tag list has a tag, a tag with a value, or a "
         "value in a range exactly when one of its key=value entries does. A query generated from a tag with any affix kind matches that tag. "
         "Every string handed out is terminated and belongs to the caller, and nothing else stays allocated.",
         ["inputs"], "all strings, patterns and tag lists, including empty, repetitive and longer ones, and failing allocations",
         "Tests try a few fixed strings; repeated substrings, empty pieces, wildcards alone and leaks on the way are not sampled.",
         [SU, QU],
         [("simple_matches, determine_pattern_type, startsWith, endsWith, contains, substring, split_string", SU),
          ("k_v_matches_p, has_tag, is_value_match, is_value_in_range, gen_query_key_value", QU)],
         "abstract interpretation of every helper over all short strings of an alphabet of character classes, compared with the definition, with every allocation accounted for",
         "All strings of up to four characters over two letters, wildcard and separators, chosen longer ones (up to 301 characters) and all pairs of up to two tags; "
         "the C library's string and regular expression functions are modelled by their standard.")
    DC, AR = "src/commons/index/dart/dart_core.c", "src/commons/collections/art.c"
    prop("D01", "Index queries are sent to every server that may hold a match",
         "Whatever the number of servers, copies and letters and whichever of its two places the load picked at insertion, an exact, prefix, suffix or infix "
         "query is sent to a server that holds each word it matches (with suffix trees and without), and a deletion is sent for every key of the word to every "
         "server that may have a copy. The same holds for routing by plain hashing. Every answer lists valid servers with their keys, and reading stops at the end of the word.",
         ["inputs", "configurations"], "all words, query texts, load outcomes, request counts, numbers of servers and copies, and both build modes",
         "The simulation tests use one word list, one number of servers and no deletion; missed servers show only as missing answers.",
         [DC, "src/commons/index/dart/dart_math.c"],
         [("DART_hash, get_server_ids_for_insert, get_server_ids_for_query, get_replica_node_ids", DC), ("DHT_hash", DC)],
         "abstract interpretation of the routing functions over all words of bounded length over characters of every residue class, with insertion, query and deletion routes compared as sets",
         "Words of up to two letters more than the tree is high over two to four character classes, 1 to 13 (28) servers, 1 to 3 copies; characters matter only by their code modulo the alphabet size.")
    prop("D02", "The radix tree of the index is an exact ordered map",
         "After any sequence of insertions (replacing or not) and deletions the tree finds exactly the keys it holds with their last values, reports the value replaced or "
         "removed, counts its keys, names the smallest and largest, and walks all keys, or those under a prefix, exactly once in order until told to stop. It keeps no pointer to a "
         "caller's key, releases what is removed and everything when destroyed, and reads no further than the keys it is given.",
         ["histories", "inputs"], "all histories of operations over related keys, and nodes of every size with bytes of any value",
         "The tests do not touch the tree directly; long common prefixes, shrinking nodes and bytes above 127 need particular histories.",
         [AR], [("art_insert, art_insert_no_replace, art_delete, art_search, art_iter, art_iter_prefix, art_minimum, art_maximum, art_tree_destroy", AR)],
         "abstract interpretation of every tree operation on every shape reachable with sets of related keys and on nodes grown and shrunk through every size, compared with a sorted map",
         "Sets of four or five keys (prefixes of each other, branches, common prefixes of 10 to 25 letters) in all orders; nodes of 1 to 255 children in five orders with "
         "holes. Keys are C strings given with their length; memory is available.")
    prop("C01", "A restarted server holds all the last run checkpointed, and nothing else",
         "A server restarted from a checkpoint holds exactly the objects, tags, containers, storage regions, histograms and data-server regions held when it was written, "
         "answers every request as the old server did, gives no id out a second time and follows no address of the last run. If the process stops or a file operation fails "
         "while a checkpoint is written, the last complete checkpoint remains; an incomplete file is refused, not half loaded.",
         ["crash_points", "histories", "fault_sequences"], "all directories a server can hold when it is checkpointed, and every point at which writing or reading the file can fail or stop",
         "The tests never checkpoint or restart a server; which fields survive depends on what the directory holds, and crashes hit one point of many.",
         [SRV, META], [("PDC_Server_checkpoint, PDC_Server_restart, PDC_Server_init", SRV)],
         "abstract interpretation of checkpoint and restart over an abstract file (memory that was written, stale addresses marked) for bounded directories, all failing operations and all prefixes",
         "Directories of a few objects with all optional parts, and one of 66 objects. The file system keeps what is written and renames atomically (power loss is out of scope); "
         "memory is available; requests are handled one at a time; the restarted run has as many servers.")
    prop("L01", "Shared data is only touched under its lock, and locks never deadlock",
         "The server's request handlers and its cache flush thread, and the workers and callers of a thread pool, may run in any interleaving: data both can reach is "
         "only touched under a common lock, no pointer into it is followed after the lock was given back, every lock taken is given back on every path, none is taken "
         "twice or in an order that can deadlock, and a thread is joined before what it uses is taken down.",
         ["schedules"], "every interleaving of the server's main thread with the flush thread, and of any number of pool workers and callers",
         "A race needs a particular interleaving; the tests run one thread, or a pool for a moment.",
         [RC, DATA, TP, SRV], [("PDC_region_cache_clock_cycle, PDC_region_cache_flush_all, PDC_transfer_request_data_write_out", RC),
          ("PDC_Server_data_write_out, PDC_Server_data_read_from", DATA), ("jobqueue_push, jobqueue_pull, thread_do, thpool_wait", TP)],
         "flow- and context-sensitive lockset analysis from every thread's entry, handler and main: lock balance, lock order, shared accesses, stale pointers",
         "Builds with ENABLE_MULTITHREAD (which do not compile at this commit) are out of scope; pool flags that are polled may be read as plain integers without the lock.")
    prop("Y01", "A thread pool runs every job exactly once and waits for all of them",
         "Every job added to a pool is run exactly once, with its own argument, in the order added per worker, by a pool of any size and whatever the timing; a job does not stay queued while "
         "a worker sleeps. Waiting returns only when no job is queued and none is running, and then wakes every waiter. Destroying a pool ends its threads, no other pool's, and frees everything "
         "once, after the last thread left; creating one returns when all its threads are ready, or fails cleanly. Paused threads go on after a resume.",
         ["schedules", "histories", "fault_sequences"], "every interleaving of workers, callers and waiters, any queue, any failing allocation or thread creation",
         "Lost wakeups and early returns need a particular interleaving; the tests use a pool for a moment.",
         [TP], [("thread_do, jobqueue_push, jobqueue_pull, thpool_wait, thpool_destroy, thpool_init", TP)],
         "thread-modular (rely/guarantee) abstract interpretation: the locked state is havocked at each acquisition and each change compared with the protocol",
         "Jobs still queued when a pool is destroyed are dropped, as documented; a resume resumes all pools. That data is only touched under its lock is L01.")
    prop("H01", "Every remote request is answered exactly once and given back once",
         "Whatever a request asks for and however handling it ends, its handler, or the bulk-transfer, forward and lookup callbacks the handler hands it to, answers it exactly once, gives its "
         "handle and its decoded input back exactly once, and uses neither afterwards. A request kept to be answered later (a wait for a transfer, a lock on a region that is locked) is neither "
         "answered nor given back before that. This holds for all requests a server accepts and those a client accepts from servers.",
         ["inputs", "fault_sequences"], "every path through each of the registered handlers and their callbacks, whatever the request, the server's state and the status a transfer ends with",
         "A request that is never answered hangs its client, one answered twice corrupts another; both happen only on failure paths and in rare states.",
         [CSC, "src/server/pdc_server_region/pdc_server_data.c", "src/server/pdc_server_region/pdc_server_region_request_handler.h"],
         [("HG_TEST_RPC_CB handlers, *_bulk_transfer_cb", CSC), ("PDC_Data_Server_region_lock, PDC_Meta_Server_buf_map", "src/server/pdc_server_region/pdc_server_data.c")],
         "interprocedural typestate analysis (property simulation, context-sensitive in which values are the request's own handle)",
         "Posting an operation to Mercury and allocating memory are taken to succeed; that a kept wait is answered once is T02.")
    CCO = "src/api/pdc_client_connect.c"
    prop("A01", "A client call returns exactly when every answer it asked for arrived",
         "A client call that sends requests waits until each of them has been answered, and no longer: it never returns while one of its answers is outstanding and never waits for an answer that was "
         "not asked for or that has been delivered already. An answer that could not be delivered or decoded is not used and the call does not report success. Every request handle and decoded "
         "answer is given back exactly once and not used after that.",
         ["schedules", "fault_sequences"], "every order in which answers arrive, every failure status an answer or a bulk transfer can end with, every path through the calling function",
         "The outstanding-answer count is shared by dozens of callbacks; an extra or missing decrement hangs the client or lets it read an answer that is not there, only on failure paths or with several servers.",
         [CCO, "src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c", "src/api/pdc_analysis/pdc_analysis_common.c"],
         [("PDC_Client_check_response, PDC_Client_check_bulk, *_rpc_cb", CCO), ("PDC_Client_* senders", CCO)],
         "interprocedural typestate analysis over senders, callbacks and wait loops (abstract interpretation with trace partitioning over delivery outcomes)",
         "Two servers; creating a handle is taken to succeed; a server-initiated bulk notification comes at most once per request.")
    prop("S01", "No message carries a field its sender did not set",
         "Whatever a client asks a server or a server answers, announces or asks another server, every field the message's type carries has been given a value by its sender before the message is handed to "
         "the network, on every path to that point: failure answers, objects of fewer dimensions and results that were not found included. Nothing that was left over in memory travels as data.",
         ["inputs", "histories", "programs"], "every path from the creation of each request and reply structure to each call that sends it, through the helpers that fill it in",
         "A field left unset on an error path or for a low-dimensional region holds whatever the stack held: usually zero in a test, a wrong status, extent or pointer in production.",
         [CCO, CSC, META, DATA, "src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c"],
         [("HG_Forward call sites", CCO), ("HG_Respond call sites in *_cb", CSC), ("PDC_region_info_t_to_transfer, PDC_region_info_t_to_transfer_unit, PDC_metadata_t_to_transfer_t", CSC),
          ("bulk announcements", DATA)],
         "interprocedural definite-assignment analysis of message structures (path-sensitive dataflow, byte-granular, summaries per returned value)",
         "What a string or buffer field points at is not followed; a write at an index that is not known sets the whole array; fields carried only when another field asks for them are not required.")
    prop("F01", "Objects keep the properties they were given; conversions keep every field",
         "A property list has exactly the properties set on it, and so has a copy of it (its data type and location excepted, which a copy does not take over). An object created with a list has those "
         "properties for its creator - through PDCobj_get_info, PDCobj_get_dims and the metadata kept with it - also after the list is changed or closed, and the server is asked to create it with exactly "
         "them; an object opened has the properties the server keeps; opening an object that does not exist fails and harms nothing. Every conversion between the forms in which metadata, regions, "
         "histograms, tags and queries are kept and sent keeps every field, the copy sharing nothing with the original that either may change or free.",
         ["inputs", "histories"], "every sequence of property settings of one and two steps and two of all, copied, used and closed, 0 to 4 dimensions, symbolic values; every field of each conversion",
         "Tests set one or two properties and read them back at once; a field dropped by one of the copies between list, object, request, directory and answer, or shared with a list that is closed later, shows "
         "only for that field, dimension count or order.",
         ["src/api/pdc_obj/pdc_prop.c", "src/api/pdc_obj/pdc_obj.c", CCO, CSC],
         [("PDCprop_create, PDCprop_obj_dup, PDCobj_prop_get_info, PDC_obj_prop_get_info", "src/api/pdc_obj/pdc_prop.c"),
          ("PDC_obj_create, PDCobj_open_common, PDC_Client_attach_metadata_to_local_obj, PDCobj_get_info, PDCobj_get_dims, PDCprop_set_obj_*", "src/api/pdc_obj/pdc_obj.c"),
          ("PDC_Client_send_name_recv_id, PDC_Client_query_metadata_name_timestep", CCO),
          ("PDC_transfer_t_to_metadata_t, PDC_metadata_t_to_transfer_t, region conversions, PDC_kvtag_dup, PDC_serialize_query, PDC_deserialize_query", CSC),
          ("PDC_dup_hist, PDC_copy_hist", "src/api/pdc_analysis/pdc_hist_pkg.c")],
         "abstract interpretation with a symbolic value in every field, over bounded histories of client calls and over the conversions, compared with what was given",
         "The server's side of creation and queries is O01's; containers and transformation properties of a list are not compared.")
    prop("Q01", "A data query selects exactly the elements that satisfy it",
         "For one-dimensional objects, the selection a server computes for a query - one condition on the values of an object, or conditions on one or several objects joined by AND and OR in any nesting, "
         "made with PDCquery_create, PDCquery_and and PDCquery_or, in any of the six numeric types, optionally within a selected region - holds each element that satisfies it exactly once and no other, "
         "whatever regions the objects are stored in (the objects of a query alike), and whether or not histograms are used to skip regions, and for each of several queries in a row.",
         ["inputs", "histories"], "every order of values and bounds within a region, five operations, six types, ranges of either bound order, 40 query trees of up to four conditions, two ways of cutting objects "
         "into regions, with and without histograms, every selected region of a small object",
         "Tests query one type with one condition; the wrong element is selected, or a right one lost, only for another type, at a bound, at the end of a region, where a region is skipped by its histogram, "
         "or where conditions are nested.",
         ["src/api/pdc_query/pdc_query.c", DATA, CSC],
         [("PDCquery_create, PDCquery_and, PDCquery_or, PDCquery_sel_region", "src/api/pdc_query/pdc_query.c"),
          ("PDC_Server_recv_data_query, PDC_Server_do_query, PDC_query_visit, PDC_Server_query_evaluate_merge_opt, PDC_region_has_hits_from_hist, PDC_Server_load_query_data, PDC_Server_data_read_to_buf", DATA),
          ("PDC_serialize_query, PDC_deserialize_query", CSC)],
         "abstract interpretation of client and server code over symbolic values known by order and machine type, compared with the elements that satisfy the query",
         "Objects of two or three dimensions, the FastBit index, and the gathering of several servers' parts are not decided.")
    prop("G01", "A histogram counts each element once, in its bin, and spans them all",
         "A histogram made of any data of a supported numeric type is made in finite time, its bins follow one another without gap or overlap, each bin counts exactly the elements that lie in it (so that all "
         "counts add up to the number of elements), and its first and last edges enclose every element, whatever part of the data is sampled to choose the bins; counting more elements keeps all this. A merged "
         "histogram counts what those merged count, in the bin that contains each of their bins, and spans all of them; copies equal the original; data that cannot be counted are refused.",
         ["inputs"], "every element type; data constant, of two values, dense, sparse, at powers of two, outside what was sampled, negative, fractional, beside every bin edge; five ways of sampling; some 300 "
         "bounds and bin numbers; bins of unequal width; merges of up to three of eight histograms in any order",
         "The bins follow from a random sample of the data, and queries skip a region by its histogram's range: tests print histograms of random data, where constant data, an element beside an edge, or one below the "
         "sample do not show.",
         ["src/api/pdc_analysis/pdc_hist_pkg.c"],
         [("PDC_gen_hist, PDC_sample_min_max, PDC_create_hist, PDC_hist_incr_all, PDC_merge_hist, PDC_dup_hist, PDC_copy_hist, PDC_free_hist", "src/api/pdc_analysis/pdc_hist_pkg.c")],
         "abstract interpretation of the histogram package with exact numbers, trace-partitioned over the ways elements lie among the bins, compared with the counts the histogram's own edges call for",
         "Rounding, infinities and values that are not numbers are not followed.")
    na(prop)


def na(prop):
    CSC = "src/server/pdc_client_server_common.c"
    prop("N01", "Concurrent region accesses appear to happen one at a time",
         "When several clients read and write overlapping regions of one object through transfer requests, every read "
         "returns data consistent with some order of the completed writes that respects each client's own order.",
         ["schedules", "histories"], "every interleaving of clients, servers, flushes and cache evictions",
         "Tests run single clients; the orders that matter arise between servers' progress threads and cache flushing.",
         ["src/server/pdc_server_region/pdc_server_region_cache.c"], [("region cache", "src/server/pdc_server_region/pdc_server_region_cache.c")],
         na="whole-history ordering over dynamic data and Mercury progress; no sound static abstraction in reach decides it "
            "(the lock and completion-order fragments are claimed separately)")
    prop("N03", "Every attribute query finds exactly the matching records",
         "A prefix, suffix, infix or exact query on an indexed attribute returns every object carrying a matching record "
         "and no other, for any set of inserted and deleted records.",
         ["inputs", "histories"], "every record set, query string and number of servers",
         "The simulation test uses one word list; the answer depends on trie contents built at run time.",
         ["src/commons/index/dart/dart_core.c", "src/commons/collections/art.c", "src/server/pdc_server_metadata_index.c"],
         [("metadata_index_create, metadata_index_search, metadata_index_delete", "src/server/pdc_server_metadata_index.c")],
         na="end-to-end exactness joins client, network and several servers' dynamic stores; no sound static argument for the whole is in reach "
            "(routing D01, the tree D02 and pattern matching X01 are claimed separately)")
