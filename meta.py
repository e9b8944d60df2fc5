#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step. Run by hand, output is committed."""
import json, os, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, hook=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  observe=observe, technique=technique, note=note, hook=hook, na=na))


LIB = "lib target behind cfg nargun_verif that re-exports the modules"
BOUND = "Holds on the executions explored, nothing is proved about others. Trusts the harness' own model and the rust toolchain."

# ---------------------------------------------------------------- DHT messages

prop("D01", "KRPC messages are understood and produced as BEP 5 says",
     "Every well-formed KRPC query, response and error, with unknown additional keys or without, is decoded to exactly the ids, addresses, "
     "tokens, ports and transaction id it carries, and every message the node sends is canonical bencode that decodes back to the same message. "
     "An arbitrary datagram is either refused with an error or understood as what its bytes really say; it never crashes or hangs the node, "
     "however it is cut, mutated or nested.",
     ["inputs"], "all datagrams: every message kind with all ids, addresses, tokens, transaction ids and extra keys, every prefix and mutation of them",
     "unit tests decode about a dozen handwritten messages; none has a wrong length, an unknown key or deep nesting",
     ["src/dht/krpc_message.rs", "src/data_structures/id.rs"],
     [("hand-written bencode encoder and decoder", "src/dht/krpc_message.rs")],
     ["Message::from_bencode / to_bencode"], "differential runtime oracle over generated, mutated and hostile inputs with a panic and hang monitor",
     BOUND, LIB)

prop("P01", "Peer wire frames are encoded and decoded losslessly",
     "Every peer wire message is encoded as a big-endian length, an id and its payload, and decoding that gives the same message back. "
     "A frame whose length doesn't fit its id, an unknown id or an incomplete frame is not taken for another message, and no sequence of bytes crashes the decoder.",
     ["inputs"], "all messages of every kind with payloads up to a whole block, all prefixes of them and arbitrary byte strings",
     "tests cover one example of each kind",
     ["src/peers/connection/message.rs", "src/data_structures/serializable_buf.rs"],
     [("Message::from_buf, into_bytes, length checks per id", "src/peers/connection/message.rs")],
     ["Message::from_buf, into_bytes, len"], "differential runtime oracle over generated, cut and hostile frames with a panic monitor", BOUND, LIB)

prop("M01", "Torrent files are understood exactly, inconsistent ones refused",
     "For every valid metainfo file the name, piece length, piece hashes, files with their paths and lengths, total length and trackers are the ones in the file, "
     "and the info hash is the SHA-1 of exactly the bytes of its info dictionary, whatever unknown keys it has. Files that miss something, whose number of pieces contradicts the length, "
     "or whose names or paths are empty or would lead out of the download directory are refused; no bytes crash the parser.",
     ["inputs"], "all metainfo files: single and multi file, unknown keys at every level, each defect at each position, arbitrary mutations",
     "tests parse two or three real torrents and check a few fields",
     ["src/transcoding/metainfo.rs"],
     [("bendy decoders of Info and File, check of piece count, hash of raw info bytes", "src/transcoding/metainfo.rs")],
     ["Torrent::from_buf"], "differential runtime oracle over generated, defective and mutated torrent files with a panic monitor", BOUND, LIB)

# ---------------------------------------------------------------- DHT node

prop("D02", "Every valid DHT query gets exactly one right answer",
     "A running node answers every valid ping, find_node, get_peers and (with a token it gave) announce_peer query exactly once, to the address that asked, with the same transaction id and its own constant node id, whoever asks, however many nodes it knows (none included), "
     "with unknown additional keys or without, also when up to a hundred queries arrive at once. find_node answers with the closest known good nodes, get_peers with a token and either peers of the torrent or the closest good nodes.",
     ["inputs", "histories", "schedules"], "all valid queries from any number of addresses, one by one and in bursts, in every state of the routing table",
     "tests never run the node; they (de)serialize messages and fill tables",
     ["src/dht/dht_manager.rs", "src/dht/connection/mod.rs"],
     [("dht event loop, UDP task and query/response channels", "src/dht/dht_manager.rs, src/dht/connection/")],
     ["datagrams on the loopback network"], "black-box online monitor of a running node in virtual time: exactly-once answers and content against a table model", BOUND, LIB)

prop("D03", "Hostile datagrams don't stop the DHT node",
     "Whatever datagrams arrive (arbitrary, truncated or deeply nested bytes, queries with impossible values, answers to nothing, nonsense answers to its own questions, floods of any of them), the node keeps running: afterwards it answers queries, "
     "asks and remembers new nodes and keeps the good ones it knew.",
     ["inputs", "histories"], "all sequences of hostile datagrams of the generated families, alone and mixed with honest traffic",
     "tests parse a few valid messages",
     ["src/dht/connection/mod.rs", "src/dht/dht_manager.rs", "src/dht/krpc_message.rs"],
     [("UDP task: decoding, pending queries, channels", "src/dht/connection/")],
     ["datagrams on the loopback network"], "fault-injecting black-box monitor of a running node with panic and hang monitors", BOUND, LIB)

prop("D04", "Only who asked may announce, and announced peers are handed out",
     "An announce_peer is accepted exactly if its token is one that this running node gave to the same IP address (within the last minutes): tokens of other addresses, other nodes, mutated or invented ones don't register anything. get_peers for a torrent lists exactly the announced peers, "
     "with the IP address the announce came from and the announced port, each once; up to a hundred of them all, a part of them otherwise. Peers announced for the torrent that is being downloaded become known to the downloader.",
     ["inputs", "histories"], "all sequences of get_peers and announce_peer from several addresses for several torrents with right and wrong tokens",
     "tests never announce",
     ["src/dht/dht_manager.rs", "src/peers/active_peers.rs"],
     [("token generation and check, peer map", "src/dht/dht_manager.rs")],
     ["get_peers answers, registry of peers"], "black-box conservation monitor: announced peers against listed ones, over generated histories", BOUND, LIB)

prop("D05", "The routing table keeps good nodes and follows BEP 5's rules",
     "Nodes that share the same number of leading bits with our own id compete for the same 8 places: an unknown node that answered is taken in if fewer than 8 good (heard of within 15 minutes) nodes of its range are known, and never takes the place of a good one; at most 8 nodes of a range are kept, an id is known at most once, "
     "and our own id isn't a node, whoever claims it. At most one node makes room for a new one. A node that is heard of again stays and counts as good. Refresh asks a random id within every range that wasn't heard of for a while.",
     ["inputs", "histories"], "all sequences of nodes heard of and passing time, in particular full ranges, deep splits and bad nodes",
     "tests fill a table in a few fixed orders without time passing",
     ["src/dht/routing_table/mod.rs", "src/dht/routing_table/bucket.rs"],
     [("RoutingTable::touch_node, split, Bucket", "src/dht/routing_table/")],
     ["iter_nodes, contains_node, refresh targets after each operation"], "model-based runtime oracle over generated histories in virtual time", BOUND, LIB)

prop("D06", "Closest nodes are the closest good nodes",
     "Asked for the nodes closest to any id, the table answers with exactly the 8 good nodes (all of them if fewer are known) whose XOR distance to it is smallest, whichever buckets they are in; asked for an id it knows, it finds that node.",
     ["inputs", "histories"], "all tables reachable by histories of D05 and all targets",
     "tests ask for two or three targets in tables of one or two buckets",
     ["src/dht/routing_table/mod.rs"], [("get_closest_nodes", "src/dht/routing_table/mod.rs")],
     ["get_closest_nodes"], "differential runtime oracle against sorting the whole model", BOUND, LIB)

prop("D07", "The stored routing table survives crashes, damage and restarts",
     "What was stored is loaded again: the same own id and the same nodes. If the process or the machine stops at any moment of storing, or the disk is full, the stored table is afterwards either the complete old or the complete new one. A file that is damaged in any way doesn't keep the node from starting, and whatever is loaded is usable. "
     "A node that is restarted has the same id and gets in touch with all the nodes it had stored.",
     ["crash points", "faults", "inputs"], "all tables, all damages of the file, every file operation of storing as a point of crash (with and without loss of unsynced data) or of a full disk",
     "tests store and load once without faults",
     ["src/dht/routing_table/mod.rs", "src/dht/dht_manager.rs"],
     [("RoutingTable::store (temporary file, sync, rename) and load", "src/dht/routing_table/mod.rs")],
     ["file after each crash, loaded table, datagrams of a restarted node"], "fault injection at every file operation (interposed libc calls) with an old-or-new oracle, and a black-box restart monitor", BOUND, LIB)

prop("D08", "Only nodes that answered us get into the routing table",
     "A node is remembered (and told to others) only after it answered a query of this node: with the transaction id of that query and a valid node id. Nodes that only ask, answer nothing we asked, answer with another transaction id or with an error aren't. "
     "Every node the client is told about, by a peer or by another node, is asked, and remembered once it answers.",
     ["inputs", "histories"], "all mixtures of nodes that answer rightly, wrongly, late, twice or not at all",
     "tests never run the node",
     ["src/dht/dht_manager.rs", "src/dht/connection/mod.rs"],
     [("pending queries by transaction id, touch_node on responses", "src/dht/connection/, src/dht/dht_manager.rs")],
     ["find_node answers of the running node"], "black-box runtime monitor: who is in the table against who answered", BOUND, LIB)

prop("D09", "Peers are looked up and announced to as BEP 5 says",
     "In every round all known nodes and everybody they tell about are asked for peers of the torrent once; all peers that are handed out in time get to the downloader, none is invented. A round ends when nothing was heard for 3 s; then the node announces its TCP port for the torrent, with the latest token of each, to the 16 best of those that answered "
     "(those that have peers first, then by distance; all if fewer). Rounds follow each other in intervals that grow from 7 s to 2 minutes and go on forever; hundreds of nodes don't change that.",
     ["inputs", "histories", "schedules"], "all networks of up to hundreds of nodes that tell, have peers, refuse, are silent or late",
     "tests never run the lookup",
     ["src/dht/peer_fetcher.rs", "src/dht/connection/mod.rs"],
     [("periodically_fetch_peers, fetch_peers, announce_peer", "src/dht/peer_fetcher.rs")],
     ["datagrams of the running node, registry of peers"], "offline trace checker over the log of a simulated network in virtual time", BOUND, LIB)

prop("D10", "The DHT node stays in touch with the network",
     "While it runs, the node refreshes its table at least every 200 s however much traffic there is. It finds the network again after an outage of up to 50 minutes, doesn't depend on the first node it knew, and learns of the nodes closest to itself when it only knows a single node.",
     ["schedules", "faults", "histories"], "all outages, departures of nodes and traffic patterns of the generated families",
     "tests never run the node",
     ["src/dht/dht_manager.rs", "src/dht/peer_fetcher.rs", "src/capped_growing_interval.rs"],
     [("refresh_table, interval in the event loop, closest nodes for the fetcher", "src/dht/dht_manager.rs")],
     ["datagrams of the running node"], "black-box liveness monitor in virtual time with injected outages and departures", BOUND, LIB)

# ---------------------------------------------------------------- trackers

prop("K01", "Announce requests say exactly what is to be announced",
     "The URL of every announce carries info hash, peer id, port, uploaded, downloaded, left, compact, event, numwant and tracker id such that a server that decodes "
     "the query gets back exactly the bytes that were meant, for arbitrary binary values and for tracker URLs that have a query of their own. Parameters of the tracker's own URL stay as they are.",
     ["inputs"], "all info hashes, peer ids, tracker ids, counters, events and tracker URLs with and without a query",
     "a single URL is compared in tests",
     ["src/tracker/announce.rs"], [("percent-encoding and query construction", "src/tracker/announce.rs")],
     ["the URL that is built"], "runtime round-trip oracle: an independent query decoder over generated announces", BOUND, LIB)

prop("K02", "Tracker responses are understood exactly",
     "Every valid tracker response gives exactly the interval, tracker id, counters and (IPv4) peers it contains, compact or as a list; optional keys may be missing and unknown ones present. A failure reason and "
     "responses that are malformed are reported as errors, and no response crashes the client.",
     ["inputs"], "all responses: optional keys present or not, unknown keys, any number of compact peers, each kind of defect, arbitrary mutations",
     "tests decode a couple of handwritten responses",
     ["src/tracker/response.rs"], [("bendy decoder of the response", "src/tracker/response.rs")],
     ["decoded response"], "differential runtime oracle over generated, defective and mutated responses with a panic monitor", BOUND, LIB)

prop("K03", "Announce protocol towards every tracker",
     "Every HTTP tracker of the torrent hears exactly one 'started' first, then regular announces at the interval it asked for and not more often, 'completed' exactly once if and when the download completes, and 'stopped' at shutdown, "
     "with the tracker id it handed out and true transfer counters (at the granularity of pieces). All peers of a successful answer become known; a tracker that fails, lies, stalls or closes is tried again later and never disturbs the other trackers.",
     ["histories", "fault_sequences", "schedules"], "all histories of answers, failures, stalls and garbage of up to four trackers, completion and shutdown at any moment, up to half an hour of virtual time",
     "no test contacts a tracker",
     ["src/tracker/mod.rs", "src/tracker/announce.rs"], [("one task per tracker, retry after failures, shutdown and completion signals", "src/tracker/mod.rs")],
     ["HTTP requests that reach trackers of the harness"], "online trace-specification monitor at fault-injecting HTTP trackers in virtual time", BOUND +
     " 'stopped' isn't required from trackers that never answered.", LIB)

# ---------------------------------------------------------------- file storage

prop("F01", "Pieces are stored at, and read back from, exactly their place",
     "Every complete piece that is stored ends up at exactly the bytes of the files that the torrent assigns to it, including pieces that span several or empty files and the shorter last piece, and changes nothing else; every block read afterwards "
     "returns the bytes that were stored. Requests outside of the torrent are refused with an error and change nothing. After all pieces are stored, every file has exactly its length and content.",
     ["inputs", "histories"], "all layouts of up to 40 files (empty ones included) with any piece length, all orders of storing and reading, all out-of-bounds requests",
     "tests use two layouts with a fixed order",
     ["src/fs/mod.rs", "src/fs/multi_file_rw.rs", "src/fs/multi_file_iter.rs", "src/fs/single_file_rw.rs"],
     [("mapping of pieces to files", "src/fs/multi_file_iter.rs"), ("bounds checks", "src/fs/single_file_rw.rs")],
     ["files on disk, answers of reads"], "model-based runtime oracle: content on disk and every read compared with a reference after each operation", BOUND, LIB)

prop("F02", "Nothing outside of the download directory is ever touched",
     "Whatever names and paths a torrent contains (parent directories, separators, absolute paths, NUL, empty components), creating, writing and reading its files never creates, changes or "
     "removes anything outside of the directory of the download. A torrent that would need that is refused as a whole.",
     ["inputs"], "all names and paths of single- and multi-file torrents, built from hostile components at every position",
     "no test has a hostile name",
     ["src/transcoding/metainfo.rs", "src/fs/mod.rs", "src/fs/multi_file_rw.rs"], [("validation of names and paths", "src/transcoding/metainfo.rs")],
     ["the directories around the download directory"], "file system monitor around a scratch directory, as an unprivileged user, over hostile names",
     BOUND + " Symbolic links that exist in the download directory are not covered.", LIB)

prop("F03", "Number of open files is bounded",
     "However many files a torrent has and in whichever order its pieces are stored and read, the number of files the storage keeps open stays at its limit of 16, and data of files that were closed and reopened stays correct.",
     ["histories", "inputs"], "all sequences of storing and reading over torrents of up to 60 files",
     "tests use fewer files than the limit",
     ["src/fs/file_cache.rs", "src/fs/multi_file_rw.rs"], [("LRU cache of open files", "src/fs/file_cache.rs")],
     ["/proc/self/fd"], "resource monitor: open descriptors counted after every operation", BOUND, LIB)

prop("F04", "Existing downloads survive being opened again",
     "Opening the storage of a torrent whose directory or files exist already, also after the process was killed between two pieces, never loses a byte that was stored and neither changes nor removes anything that isn't the torrent's. "
     "Everything stored before can be read afterwards, and the download can be continued to exactly the content of the torrent.",
     ["histories", "crash_points"], "all sequences of storing, closing, killing and reopening between any two pieces, with foreign files in the directory",
     "tests always start with an empty directory",
     ["src/fs/mod.rs", "src/fs/multi_file_rw.rs"], [("creation of directories and files", "src/fs/mod.rs")],
     ["files on disk, answers of reads"], "model-based runtime oracle over histories of openings", BOUND, LIB)

# ---------------------------------------------------------------- connection with a peer

prop("P02", "Every message of a peer is delivered once, whole and in order",
     "However the stream of a peer is cut into segments, each of its messages is delivered exactly once, unchanged and in order, and a port message reaches the DHT with the peer's address. An unknown or malformed message is skipped without harm to the ones around it, "
     "an oversized one ends the connection, and the end of a connection is reported exactly once.",
     ["inputs", "schedules"], "all sequences of messages of every kind with unknown and malformed ones in between, all segmentations, ends at every byte",
     "no test runs a connection",
     ["src/peers/connection/connection_manager.rs", "src/peers/connection/message.rs"], [("buffered framing in the receiver", "src/peers/connection/connection_manager.rs")],
     ["messages that come out of the connection handle"], "trace-specification monitor over a real TCP stream of generated segments", BOUND, LIB)

prop("P03", "Only peers of the same torrent get past the handshake",
     "A connection starts with one handshake of 68 bytes that carries our info hash and peer id, and becomes usable only after the peer answered with the same protocol and info hash, in however many segments. Every other peer (refusing, closing, "
     "silent, stalling, of another protocol or torrent) is reported as unreachable within a minute, nothing it sent is delivered, and it can be tried again.",
     ["inputs", "fault_sequences", "schedules"], "all handshake answers, wrong at every byte, cut at every byte, delayed at will",
     "tests don't do handshakes",
     ["src/peers/connection/handshake.rs", "src/peers/connection/connection_manager.rs"], [("Handshake, initiate_handshake with a timeout", "src/peers/connection/handshake.rs")],
     ["bytes at the peer, events of the connection handle"], "trace-specification monitor at fault-injecting peers in virtual time", BOUND,
     LIB + "; handshake::verif::bytes exposes the bytes of a handshake")

prop("P04", "Outgoing messages arrive in order and idle connections are kept alive",
     "Each message sent to a connected peer arrives there exactly once, unchanged and in order, and only there, also when peers read slowly or messages are sent before the handshake is done. A connection that has nothing to say sends a keep-alive at least every two minutes; a "
     "message to somebody who isn't connected is refused.",
     ["histories", "schedules"], "all scripts of messages to several peers and all periods of silence up to 700 s",
     "no test runs a connection, none waits minutes",
     ["src/peers/connection/connection_handle.rs", "src/peers/connection/connection_manager.rs"], [("sender task, keep_alive_sender", "src/peers/connection/connection_manager.rs")],
     ["bytes at the peers"], "trace-specification monitor at peers of the harness in virtual time", BOUND, LIB)

prop("P05", "Block requests are valid, bounded and not duplicated",
     "Every request names a block of a piece ordered from that peer, begins at a multiple of 16 KiB and has exactly the length of that block, also in the last piece. It is sent only while the peer doesn't choke us, at most 16 requests of a peer are open, "
     "and a block isn't requested again (from that or another peer) within five seconds while its request is open, nor after its piece is finished; requests that were lost, refused, answered wrongly or forgotten by a choke are made again, so that a peer that serves correctly always gets the piece finished.",
     ["histories", "schedules", "fault_sequences"], "all swarms of one to four peers that are slow, drop requests, choke again and again, send wrong, duplicated or unsolicited data or leave, and all assignments of pieces to them",
     "tests exercise the table of pending blocks without a connection, a peer or time",
     ["src/peers/connection/downloader.rs", "src/peers/connection/pending_pieces.rs"],
     [("PendingPieces: who is to send which block until when", "src/peers/connection/pending_pieces.rs"), ("request pipeline of a peer", "src/peers/connection/downloader.rs")],
     ["log of requests, answers and chokes at the peers"], "offline trace checker over the recorded logs of misbehaving peers in virtual time", BOUND, LIB)

prop("P06", "Only verified pieces are reported, each once",
     "A piece is reported as finished only if its data is complete and has the SHA-1 of the torrent, at most once, and only if it was ordered; its blocks are in order and unchanged. Wrong, truncated, duplicated or unsolicited blocks of any peer never end up in a finished piece.",
     ["histories", "fault_sequences", "inputs"], "all swarms of one to four peers that corrupt, truncate, duplicate or invent blocks and all orders of arrival",
     "tests finish pieces from handmade correct blocks only",
     ["src/peers/connection/downloader.rs", "src/peers/connection/pending_pieces.rs", "src/transcoding/metainfo.rs"],
     [("hash check before a piece is reported", "src/peers/connection/downloader.rs"), ("bounds and lengths of blocks", "src/peers/connection/pending_pieces.rs")],
     ["finished pieces"], "online oracle: every reported piece compared with the true content under fault-injecting peers", BOUND, LIB)

# ---------------------------------------------------------------- whole client

BASE = "lib target, and torrent_manager::verif::BASE_DIRS instead of the hard-coded download directory, both behind cfg nargun_verif"

prop("T01", "A download ends with exactly the torrent's bytes and stores nothing foreign",
     "Whatever peers send and however the disk misbehaves for a while (full, short writes, slow), the files in the download directory contain at every moment only bytes that are the torrent's or were there before, no other files, and none longer than the torrent says. "
     "When the download is complete every file is byte for byte the torrent's, and stays that way.",
     ["inputs", "schedules", "histories", "crash points"], "all torrents, swarms of honest and hostile peers that have everything together, temporary disk errors at any moment",
     "tests never run a download; no part above the message codecs is exercised together with another one",
     ["src/torrent_manager.rs", "src/peers/connection/downloader.rs", "src/fs/mod.rs"],
     [("pieces are checked, stored, or downloaded again if storing failed", "src/torrent_manager.rs")],
     ["files on disk during and after whole downloads"], "online monitor of the download directory during whole downloads from fault-injecting peers, with injected disk errors", BOUND, BASE)

prop("T02", "A download completes as long as good peers have everything",
     "If honest, reachable peers have all pieces together, the download completes, whatever others do: peers that send a limited number of corrupt or wrong-length blocks, oversized messages, duplicates, unsolicited or no data, don't read, leave and return, choke again and again, fail or stall the handshake, or can't be reached, in any mixture "
     "that leaves the good ones a place among the ten connections (and at most two that accept requests and never answer). With at most ten peers altogether this includes good ones that disconnect or fail the handshake a few times before they stay.",
     ["schedules", "histories"], "all mixtures of honest and hostile peers with their delays and joining times",
     "tests never run a download",
     ["src/torrent_manager.rs", "src/peers/connection/pending_pieces.rs", "src/peers/connection/downloader.rs", "src/peers/active_peers.rs"],
     [("choice of pieces and peers, requests that time out and move to others", "src/torrent_manager.rs, src/peers/connection/pending_pieces.rs")],
     ["completion of whole downloads within ten minutes of virtual time"], "liveness monitor of whole downloads in virtual time among fault-injecting peers", BOUND, BASE)

prop("T03", "The client keeps to the rules of the swarm",
     "At no time more than ten peers are connected and never the same one twice; all connections show the same peer id. Blocks are asked for only from peers that said they have the piece, after the client told them that it's interested, with bounds inside of the torrent; "
     "in a swarm without failures no block is asked for twice, and nothing is asked for once the download is complete. A peer that has something that's missing is told that the client is interested.",
     ["schedules", "histories"], "all swarms and torrents as in T01",
     "tests never run the client against a peer",
     ["src/torrent_manager.rs", "src/peers/connection/connection_handle.rs"],
     [("table of active peers, assignment of pieces", "src/torrent_manager.rs")],
     ["logs of all peers of a download"], "offline checker over the merged event log of all peers of a whole download", BOUND, BASE)

prop("T04", "Trackers are told what is really missing, and once that it's complete",
     "Every announce to every HTTP tracker says as left what was missing on disk at that time and as downloaded what wasn't (at the granularity of pieces), left is zero once everything is there. Each of them gets event=completed exactly once, right when the download completes, and each that answered gets event=stopped on shutdown.",
     ["histories", "schedules"], "all downloads, with up to three trackers with any announce interval",
     "tests build one announce URL",
     ["src/torrent_manager.rs", "src/tracker/tracker_manager.rs", "src/tracker/announce.rs"],
     [("counter of stored pieces and the broadcast of completion", "src/torrent_manager.rs")],
     ["announces seen by the trackers, files on disk"], "offline checker: log of announces against the recorded state of the download directory", BOUND, BASE)

prop("T05", "Peers are found wherever they are known, and the client makes itself known",
     "A download completes if the only peer that has the data is known to a tracker (from the start or later), to a DHT node a peer told about with a PORT message, to a node that this node tells about, or announces itself to the client's own DHT node. "
     "The client announces its own port to DHT nodes it asked for peers.",
     ["histories", "schedules"], "all torrents and the five ways of finding a peer, with random timing",
     "tests never connect trackers, DHT node and downloader",
     ["src/torrent_manager.rs", "src/dht/mod.rs", "src/dht/peer_fetcher.rs", "src/tracker/tracker_manager.rs", "src/peers/connection/connection_manager.rs"],
     [("registry of peers shared by all of them, PORT messages handed to the DHT node", "src/peers/active_peers.rs, src/dht/mod.rs")],
     ["whole downloads, DHT datagrams"], "end-to-end liveness monitor of client and DHT node in virtual time", BOUND, BASE)

# ---------------------------------------------------------------- shared parts

prop("X01", "No undefined behaviour and no data race, whatever comes in",
     "The client's unsafe code (views of handshakes and hashes as bytes, pieces taken over from the torrent file without copying) and everything it calls never reads or writes outside of live allocations, frees with a wrong layout, uses uninitialised or misaligned memory, or races with another thread, "
     "for no torrent file, datagram, peer message, or schedule of its threads.",
     ["inputs", "schedules"], "all inputs of the parsers and all executions of the client",
     "tests run without a sanitizer, and undefined behaviour mostly goes unnoticed",
     ["src/transcoding/metainfo.rs", "src/peers/connection/handshake.rs", "src/data_structures/id.rs"],
     [("unsafe blocks", "src/transcoding/metainfo.rs (pieces), src/peers/connection/handshake.rs (as_ref), src/data_structures/id.rs (weight)")],
     ["memory accesses of every executed line"], "Miri (undefined behaviour and data race detection under different schedules), AddressSanitizer over the workloads of the other checks and ThreadSanitizer (standard library included) over the multi-threaded ones",
     "Holds on the executions explored. Miri runs with OpenSSL's SHA-1 and tokio's version replaced and without UDP.", BASE)

prop("R01", "The registry of peers is consistent under concurrency",
     "A peer found by any source is registered once and never lost. Asking for peers to connect to hands out as many as were asked for or are available, best known status first, never one that is already in use and never the same one to two callers; "
     "peers that are given back can be handed out again. Sharing peers with others and counting them changes nothing, and never includes peers nobody can connect to.",
     ["histories", "schedules"], "all operation sequences over up to hundreds of peers, and concurrent ones of up to six threads",
     "tests are single threaded with few peers",
     ["src/peers/active_peers.rs", "src/peers/peer.rs"], [("one lock around the set of peers", "src/peers/active_peers.rs")],
     ["answers of every operation"], "model-based runtime oracle, plus conservation check (handed out exactly once) over multi-threaded stress", BOUND, LIB)

prop("S01", "Shutdown reaches everyone and waits for everyone",
     "A shutdown request is noticed by every holder of the signal that existed when it was made, whenever it starts to wait and on whichever thread, and by nobody earlier. The shutdown is reported as complete when, and not before, the last holder (clones included) is gone.",
     ["schedules", "histories"], "all interleavings of one request with any number of holders and clones of clones that wait, clean up or leave before, during or after it, on one and on several threads",
     "tests send one signal to receivers that already wait",
     ["src/shutdown.rs"], [("broadcast of the signal, channel that closes when the last holder is dropped", "src/shutdown.rs")],
     ["completion of recv in every task, completion of the wait"], "schedule stress with injected delays in virtual and real time, completion and ordering monitor", BOUND, LIB)

prop("U01", "Growing intervals tick when they should",
     "The wait number n of a growing interval lasts as long as its formula says for n, but never longer than its cap. A wait that is interrupted because something else happened first goes on when it is taken up again and ends when it would have ended, so that however often it is interrupted, it ends.",
     ["inputs", "histories", "schedules"], "all formulas and caps of a representative set and all sequences of completed and interrupted waits",
     "tests check a few ticks of one parametrization",
     ["src/capped_growing_interval.rs"], [("CappedGrowingInterval::tick", "src/capped_growing_interval.rs")],
     ["virtual time of each tick"], "model-based runtime oracle in virtual time with interrupted waits", BOUND, LIB)

prop("U02", "Bitmaps equal a vector of booleans",
     "A bitmap of any size behaves as a vector of that many booleans under every sequence of operations: reading, changing (which tells the old value), iterating and counting give what the vector gives. Replacing all data works for data of exactly the right length and is refused without "
     "effect otherwise; spare bits of the last byte never count.",
     ["inputs", "histories"], "all sizes (multiples of 8 and others) and all operation sequences with data of any length",
     "tests cover two sizes",
     ["src/data_structures/bitmap.rs"], [("Bitmap", "src/data_structures/bitmap.rs")],
     ["answers of every operation"], "model-based runtime oracle over generated operation sequences with a panic monitor", BOUND, LIB)

prop("U03", "Identifiers behave as 160-bit numbers with the XOR metric",
     "Equality, order, distance (XOR), order of distances, comparison of prefixes, first different bit, reading, setting and flipping bits, number of ones and salted SHA-1 of identifiers agree with 160-bit big-endian numbers. Randomizing an identifier after a bit keeps that bit and everything before it and can change every bit behind it.",
     ["inputs"], "all pairs of identifiers, in particular ones with a common prefix, and all bit positions",
     "tests compare a few identifiers",
     ["src/data_structures/id.rs"], [("ID", "src/data_structures/id.rs")],
     ["answers of every operation"], "differential runtime oracle against independent big integers", BOUND, LIB)

prop("G01", "The program does from start to interrupt what it was started for",
     "Started with a torrent file, the program has one TCP and one UDP port forwarded by the gateway and tells every tracker and DHT node the external TCP port it got, uses one peer id for trackers and peers, answers the DHT on the UDP port that is forwarded, "
     "downloads the torrent from peers that trackers or the DHT know, and goes on until it's interrupted. Interrupted at any time it ends by itself soon and successfully, having told the trackers that answered it that it stopped and having kept its node table, without damage to what it had stored; "
     "started again it has the same node id and asks the nodes it knew. With a broken torrent file or without a port it ends with an error, having announced and created nothing.",
     ["inputs", "histories", "schedules"], "all torrents, gateways (choosing ports, taking the one they're asked for after any number of refusals, refusing, absent), sets of trackers, DHT nodes and peers, and all moments of interruption",
     "no test starts the program; main, the gateway and the configuration have none",
     ["src/main.rs", "src/gateway_device.rs", "src/config.rs", "src/shutdown.rs"],
     [("main: wiring of gateway, DHT, client and shutdown", "src/main.rs"), ("open_any_port", "src/gateway_device.rs")],
     ["exit status and output of the process, requests to the gateway, announces, datagrams, connections, files"],
     "black-box monitor of the running program among a gateway, trackers, nodes and peers of the harness; the merged log is judged offline", BOUND,
     "base directory of downloads from the environment behind cfg nargun_verif")

exec(open(os.path.join(HERE, "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "meta_more.py")) else None


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]], observe_at=p["observe"], hook_needed=p["hook"]),
            ), ensure_ascii=False) + "\n")
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^verif hook"], capture_output=True, text=True).stdout.split()
    m = dict(
        version=1,
        setup_cmd="bash setup.sh",
        hooks=dict(guard="nargun_verif", enable="RUSTFLAGS '--cfg nargun_verif --cfg tokio_unstable' (harness/.cargo/config.toml)", source_commits=hooks[::-1]),
        checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --tier=thorough",
                     evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p.get("level", "exploration"), level_note=p["note"]) for p in P if not p["na"]],
        not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
