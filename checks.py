"""What check.py runs for each property."""


def simple(bin, quick, thorough, workers=8, **args):
    def jobs(tier):
        a = dict(args)
        a["rounds"] = quick if tier == "quick" else thorough
        return [{"bin": bin, "workers": workers, "args": a}]
    return jobs


def several(*what):
    """(bin, quick rounds, thorough rounds, workers)..."""
    def jobs(tier):
        return [{"bin": b, "workers": w, "args": {"rounds": q if tier == "quick" else t}} for b, q, t, w in what]
    return jobs


def sanitized(tier):
    """(flavour, bin, what, quick rounds, thorough rounds, workers)"""
    q = tier == "quick"
    table = [
        ("miri", "safety", "download", 1, 4, 3, 40),
        ("miri", "pure", "M01", 1, 10, 2, 8),
        ("miri", "pure", "D01", 2, 20, 1, 8),
        ("miri", "pure", "P01", 10, 100, 1, 8),
        ("miri", "pure", "U02", 2, 20, 1, 8),
        ("miri", "pure", "U03", 20, 200, 1, 8),
        ("miri", "table", "D06", 1, 1, 0, 4),
        ("miri", "sync", "R01", 1, 4, 1, 16),
        ("miri", "sync", "S01", 1, 4, 1, 16),
        ("asan", "safety", "download", 15, 300, 2, 8),
        ("asan", "safety", "dht", 5, 100, 1, 8),
        ("asan", "pure", "M01", 2_000, 100_000, 1, 8),
        ("asan", "pure", "D01", 4_000, 200_000, 1, 8),
        ("asan", "pure", "P01", 5_000, 200_000, 1, 8),
        ("asan", "table", "D05", 50, 5_000, 1, 8),
        ("asan", "sync", "R01", 300, 30_000, 1, 8),
        ("asan", "fsx", "F01", 20, 1_000, 1, 8),
        ("asan", "tracker", "K02", 1_000, 50_000, 1, 8),
        ("asan", "wire", "P02", 50, 3_000, 1, 8),
        ("asan", "wire", "P06", 30, 2_000, 2, 8),
        ("asan", "dht", "D03", 6, 300, 1, 8),
        ("asan", "dht", "D09", 6, 300, 1, 8),
        ("asan", "tm", "T01", 15, 1_000, 2, 8),
        ("tsan", "safety", "download", 30, 1_500, 2, 8),
        ("tsan", "safety", "dht", 5, 100, 1, 1),
        ("tsan", "sync", "R01", 400, 30_000, 1, 8),
        ("tsan", "sync", "S01", 100, 10_000, 1, 8),
        ("tsan", "fsx", "F01", 15, 1_000, 1, 8),
    ]
    return [{"flavour": f, "bin": b, "what": w, "workers": wq if q else wt, "args": {"rounds": rq if q else rt},
             "timeout": (200 if f == "miri" else 400) if q else 2 * 3600} for f, b, w, rq, rt, wq, wt in table]


CHECKS = {
    "D01": dict(
        jobs=simple("pure", 20_000, 1_000_000),
        rule="KRPC messages of every kind generated from a model (ids, addresses, tokens and transaction ids random or at their bounds, "
             "unknown extra keys), plus arbitrary, mutated, truncated and deeply nested datagrams; non-trivial: a distinct datagram",
        min={"decoded_GetPeers": 100, "encoded_RValues": 100, "hostile_accepted": 100},
    ),
    "D02": dict(
        jobs=simple("dht", 25, 2_000), net=True,
        rule="valid queries of every kind (with the unknown keys other clients send, bursts of up to a hundred at a time) from many nodes to a "
             "running node that knows none to many others, in a third of the scenarios over times that make nodes questionable; every answer is compared with "
             "what was asked; non-trivial: a distinct query",
        min={"pings": 2_000, "find_nodes": 4_000, "get_peers": 2_000, "value_answers": 500, "node_answers": 4_000, "questionable": 80, "own_tids": 1_000},
    ),
    "D03": dict(
        jobs=simple("dht", 25, 2_000), net=True,
        rule="attacks on a running node: arbitrary, mutated, nested and truncated datagrams, floods of queries and of answers to nothing, nonsense "
             "answers to its own questions; afterwards it has to answer, to ask and to remember; non-trivial: a distinct attack",
        min={"hostile": 20_000, "attacks": 150, "answers_afterwards": 500},
    ),
    "D04": dict(
        jobs=simple("dht", 25, 2_000), net=True,
        rule="announces with own, foreign, mutated, empty, invented and other instances' tokens from several addresses, and what get_peers lists "
             "afterwards; non-trivial: a distinct announce",
        min={"accepted": 2_000, "rejected": 4_000, "listed": 5_000, "tokens": 500},
    ),
    "D05": dict(
        jobs=simple("table", 600, 60_000),
        rule="histories of nodes that are heard of for the first time and again, with minutes to hours in between and prefix classes that fill up, "
             "on the real routing table next to a model of BEP 5's rules; non-trivial: a distinct history",
        min={"touched": 100_000, "refused": 10_000, "replaced": 5_000, "refreshes": 50_000},
    ),
    "D06": dict(
        jobs=simple("table", 400, 40_000),
        rule="the histories of D05; queries for random targets, known ids and neighbours of both, answers compared with a sort of the model; "
             "non-trivial: a distinct query",
        min={"closest": 100_000, "exact": 50_000, "nobody": 1_000},
    ),
    "D07": dict(
        jobs=several(("table", 45, 3_000, 8), ("dht", 8, 500, 8)), net=True, extra_bins=["crash"],
        rule="tables of none to hundreds of nodes stored and loaded, the stored file damaged in every way, the process killed, its unsynced data "
             "lost or torn, and the disk full at every single file operation of a store, and whole nodes that are stopped and started again; "
             "non-trivial: a distinct table, damage or crash point",
        min={"stored": 200, "damaged": 1_000, "crash_kill": 200, "crash_lose": 200, "crash_torn": 200, "crash_full": 200,
             "old_after_crash": 300, "new_after_crash": 200, "restarts": 80, "nodes_asked": 300},
    ),
    "D08": dict(
        jobs=simple("dht", 25, 2_000), net=True,
        rule="up to thirty nodes that the client was told about and that answer rightly, with another transaction, another id, an error, twice, "
             "not at all, or only ask or claim to answer; every id is then looked up in the node's table; non-trivial: a distinct id",
        min={"in_table": 500, "kept_out": 5_000, "told": 100, "kind_changing": 100, "kind_unsolicited": 100, "kind_wrong-tid": 100},
    ),
    "D09": dict(
        jobs=simple("dht", 25, 2_000), net=True,
        rule="networks of 1 to 700 nodes (telling about others, having peers, silent, late, refusing) over up to 400 s of virtual time; the log of "
             "all lookups and announces is checked against the specification; non-trivial: a distinct round",
        min={"rounds": 1_000, "lookups": 20_000, "announces": 5_000, "values": 5_000, "big_networks": 3},
    ),
    "D10": dict(
        jobs=simple("dht", 30, 2_000), net=True,
        rule="a node under steady traffic, after outages of up to 50 minutes, after its only node is gone, and a new one that learns of a whole "
             "network from a single node; non-trivial: a distinct history",
        min={"busy": 20, "outages": 20, "first_gone": 20, "discoveries": 20, "refresh_queries": 500},
    ),
    "P01": dict(
        jobs=simple("pure", 20_000, 1_000_000),
        rule="frames of every message kind with payloads from empty to a full block, every prefix of them, and arbitrary frames; "
             "non-trivial: a distinct frame",
        min={"kind_7": 100, "any_invalid": 1000, "cut": 1000},
    ),
    "M01": dict(
        jobs=simple("pure", 8_000, 400_000),
        rule="torrent files generated from a model (single and multi file, unknown keys at every level), the same with one defect of a known "
             "kind, and mutated ones; non-trivial: a distinct file",
        min={"valid_multi": 100, "valid_single": 100, "refused_pieces": 100, "hostile": 1000, "files": 500, "big_files": 8},
    ),
    "K01": dict(
        jobs=simple("pure", 60_000, 3_000_000),
        rule="announce parameters over their whole ranges with raw binary info hash, peer id, tracker id and tracker URLs with and without a "
             "query of their own; non-trivial: a distinct URL",
        min={"url_with_query": 100, "tracker_id": 100},
    ),
    "U02": dict(
        jobs=simple("pure", 20_000, 1_000_000),
        rule="operation sequences on bitmaps of every size against a vector of bools; non-trivial: a distinct sequence",
        min={"change": 1000, "replace_data": 1000},
    ),
    "U03": dict(
        jobs=simple("pure", 60_000, 3_000_000),
        rule="pairs of identifiers, half of them sharing a prefix of a random length, against an independent big-integer model; "
             "non-trivial: a distinct pair",
        min={"pairs": 1000},
    ),
    "F01": dict(
        jobs=simple("fsx", 60, 5_000),
        rule="single- and multi-file torrents (empty files, files inside of one piece, pieces over many files, up to 40 files) on a real "
             "directory, sparse ones of 2 to 20 GiB among them; pieces stored in random order with refused ones in between, then read back block by block and compared on disk "
             "with what was stored; non-trivial: a distinct torrent",
        min={"piece_written": 3000, "block_read": 10_000, "with_empty_file": 50, "out_of_bounds": 300, "far_piece_written": 20},
    ),
    "F02": dict(
        jobs=simple("fsx", 600, 40_000),
        rule="file and directory names with every kind of traversal (.., separators, absolute, NUL, empty, very long), run as an "
             "unprivileged user next to decoys; non-trivial: a distinct torrent",
        min={"stored": 500, "refused": 1000},
    ),
    "F03": dict(
        jobs=simple("fsx", 150, 10_000),
        rule="torrents of more files than the cache holds, blocks read and pieces written in random order with the open files of the "
             "process counted after every operation; non-trivial: a distinct torrent",
        min={"handle_checks": 20_000, "at_limit": 3000},
    ),
    "F04": dict(
        jobs=simple("fsx", 150, 10_000),
        rule="download directories that exist already, with part of the data, foreign files and several openings in a row; "
             "non-trivial: a distinct history",
        min={"openings": 1000, "piece_reread": 3000},
    ),
    "U01": dict(
        jobs=simple("sync", 3_000, 200_000),
        rule="interval parameters over their ranges, ticks awaited and dropped at random moments of virtual time against a model; "
             "non-trivial: a distinct history",
        min={"ticks": 50_000, "ticks_at_cap": 5_000, "cancelled": 5_000},
    ),
    "S01": dict(
        jobs=simple("sync", 300, 20_000),
        rule="shutdown channels with senders and receivers in tasks on one and on several threads, in virtual and in real time with random "
             "delays; non-trivial: a distinct history",
        min={"signals": 5_000, "threaded": 500, "virtual_time": 500},
    ),
    "T01": dict(
        jobs=simple("tm", 40, 3_000), net=True,
        rule="whole downloads of generated torrents (single and multi file, 1 to 70 pieces, with or without old files on disk) from swarms of honest peers and "
             "up to fifteen that corrupt, lie, leave, choke, duplicate, stay silent or refuse, a third of them with a disk that is full, takes only parts of "
             "writes or takes seconds for them; the disk is compared with the torrent all the time; non-trivial: a distinct swarm and torrent",
        min={"completed": 200, "bytes_checked": 10_000_000, "disk_trouble": 20, "disk_slow": 8, "met_corrupt": 20, "met_wrong_length": 20},
    ),
    "T02": dict(
        jobs=simple("tm", 50, 4_000), net=True,
        rule="the swarms of T01 without honest-only ones, a good part with a disk that takes seconds for a write now and then, together the honest peers have everything; complete within ten minutes of virtual time; "
             "non-trivial: a distinct swarm and torrent",
        min={"completed": 250, "met_silent": 15, "met_not_reading": 15, "met_leaving": 20, "met_choking": 20, "met_oversizing": 20, "met_bad_handshake": 100, "disk_slow": 40, "met_again": 30},
    ),
    "T03": dict(
        jobs=simple("tm", 40, 3_000), net=True,
        rule="the swarms of T01, and torrents of up to 67,000 pieces of which only some can be had; the merged log of all peers (connections, handshakes, interest, requests) is checked against the rules, for a minute after "
             "completion too; non-trivial: a distinct swarm and torrent",
        min={"completed": 150, "requests": 3_000, "connections": 1_000, "blocks_once": 500, "most_10": 30, "should_be_interested": 20, "wide": 15, "disk_slow": 15},
    ),
    "T04": dict(
        jobs=simple("tm", 30, 3_000), net=True,
        rule="the swarms of T01 found through one to three trackers with intervals from 2 s to 600 s, some of which fail at first, a third of them with a disk that fails for some time; every announce is compared with what was on disk around "
             "its time; non-trivial: a distinct tracker of a distinct download",
        min={"downloads": 150, "announces": 2_000, "partial_announces": 100, "told_completed": 300, "told_stopped": 300, "late_retries": 20, "disk_trouble": 20},
    ),
    "T05": dict(
        jobs=simple("tm", 40, 3_000), net=True,
        rule="client and DHT node together; the only peer that has anything is found through a tracker at once or later, or through a peer's PORT message and a "
             "DHT node's values, a node of that node, or an announce to the client's own node; non-trivial: a distinct download",
        min={"found_by_tracker": 20, "found_by_tracker_later": 20, "found_by_dht_values": 20, "found_by_dht_node_of_node": 20, "found_by_dht_announce": 20},
    ),
    "X01": dict(
        jobs=sanitized, net=True,
        rule="the harness' workloads once more under Miri (codecs, torrent files, tables, the registry and shutdown under threads, whole downloads over TCP on "
             "several threads with different schedules) and, larger, under AddressSanitizer (all of them, OpenSSL included); the multi-threaded ones under ThreadSanitizer too; only what the sanitizers find counts; "
             "non-trivial: a distinct case of any workload",
        min={"miri_runs": 6, "asan_runs": 10, "asan_downloads": 10, "tsan_runs": 3, "tsan_downloads": 10},
        assumptions=["Miri: OpenSSL's SHA-1 replaced by one in Rust, tokio 1.53 instead of 1.25, no UDP; AddressSanitizer: the standard library isn't instrumented (ThreadSanitizer: it is)"],
    ),
    "G01": dict(
        jobs=simple("prog", 2, 60, workers=24), net=True, program=True, parallel=24,
        rule="the compiled program started from the command line in a network with a UPnP gateway, one to three trackers, DHT nodes and peers, "
             "interrupted at random moments and after completion, then started again; gateways that refuse or choose ports, broken torrent files; "
             "non-trivial: a distinct run",
        min={"runs": 25, "completed": 12, "interrupted": 25, "remembered": 3, "told_stopped": 20, "told_completed": 10, "no_gateway": 3, "mappings": 50, "dht_announces": 20},
    ),
    "R01": dict(
        jobs=simple("sync", 3_000, 200_000),
        rule="operation sequences on the shared set of peers against a model, and the same from several threads with every peer handed out "
             "counted; non-trivial: a distinct history",
        min={"batch": 5_000, "share": 5_000, "threaded_runs": 1_000},
    ),
    "K02": dict(
        jobs=simple("tracker", 4_000, 300_000),
        rule="answers of trackers generated from a model (compact peers and lists of them, optional keys missing, unknown keys, failures), the same with one "
             "defect, and mutated ones; non-trivial: a distinct answer",
        min={"decoded": 10_000, "refused": 10_000, "hostile_accepted": 3_000, "lists": 2_000},
    ),
    "K03": dict(
        jobs=simple("tracker", 12, 600),
        rule="one to four HTTP trackers of the harness (answering, failing, silent, closing, slow, garbage, own intervals) announced to over "
             "up to half an hour of virtual time, with completion and shutdown at random moments; non-trivial: a distinct history",
        min={"announces": 300, "shutdowns": 50, "peers_learned": 500, "stopped": 60, "downloaded_some": 200, "stopped_during_announce_or_retry": 8},
    ),
    "P02": dict(
        jobs=simple("wire", 400, 30_000),
        rule="streams of messages of every kind, unknown and malformed ones in between, cut into segments at random places, ended in the "
             "middle of a message or by a message that is too long; non-trivial: a distinct stream",
        min={"delivered": 20_000, "ports": 2_000, "oversized": 500, "cut": 200},
    ),
    "P03": dict(
        jobs=simple("wire", 150, 10_000),
        rule="connections to peers that accept, refuse, stall, close, answer in pieces or with a wrong length, protocol or torrent; "
             "non-trivial: a distinct history",
        min={"good": 300, "torrent": 100, "silent": 50, "stalled": 50, "truncated": 50},
    ),
    "P04": dict(
        jobs=simple("wire", 100, 6_000),
        rule="scripts of outgoing messages to one to three peers, some of which read slowly or not at all for up to a minute, followed by up to 700 s of silence in virtual "
             "time; non-trivial: a distinct script",
        min={"messages": 5_000, "keepalives": 2_000, "stalled": 20},
    ),
    "P05": dict(
        jobs=simple("wire", 240, 16_000),
        rule="one to four peers (slow, dropping requests, choking again and again, sending duplicated, unsolicited, wrong, too long data, "
             "garbage, leaving) of which each piece is ordered from one to three, over 160 s of virtual time; the log of every request, "
             "answer and choke is checked against the specification; non-trivial: a distinct swarm",
        min={"requests": 5_000, "chokes": 50, "peer_dropping": 50, "peer_leaving": 20, "swarms_silent": 20, "swarms_late": 20, "swarms_choking": 20, "far_pieces_finished": 50},
    ),
    "P06": dict(
        jobs=lambda tier: simple("wire", 240, 16_000)(tier) + simple("wire", 160, 16_000, workers=4, threads=1)(tier),
        rule="the swarms of P05, and on several threads peers that send blocks of the same pieces at the same time; every piece that is reported "
             "as finished is compared with the torrent; non-trivial: a distinct swarm",
        min={"pieces_finished": 3_000, "peer_corrupt": 50, "peer_wrong_length": 50, "threads_pieces": 1_000},
    ),
}
