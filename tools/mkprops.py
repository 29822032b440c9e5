#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

ST = ["storage/storage.go", "storage/torrent.go"]

prop("C01", "Only SHA-1-verified data is ever exposed",
 "A piece counts as complete (in the storage bitfield, for block reads, for its waiters, and for resume after a reload) only once all of its bytes are stored and their SHA-1 equals the hash the metainfo gives for that piece; otherwise reads of it fail. A block read either fails or returns exactly the torrent's own bytes of the requested range, before and after the torrent is assembled. Damaged, truncated or foreign files found in the work directory, or in the target's place, at load time are never treated as complete pieces or as the finished torrent.",
 ["histories", "inputs"], "every sequence of block writes (correct, corrupt, swapped, duplicate, any order), resets, reads and reloads; every corruption of work-directory files between runs",
 "The tests write only correct data in order; no test stores a corrupt block, resets a piece, or reloads over a damaged piece file.",
 ST, [("coalesceBlocks hashes the blocks before publishing a piece", "storage/storage.go:coalesceBlocks"), ("Load re-checks piece files", "storage/storage.go:Load"), ("GetBlock refuses incomplete pieces", "storage/storage.go:GetBlock")],
 ["Storage.PutBlock/GetBlock/Load results", "Torrent.Bitfield", "Piece.Wait", "files under the work directory"],
 [("Piece.coalesced", "piece verified and on disk", "storage/torrent.go"), ("Piece.blocks", "blocks held in memory", "storage/torrent.go")])

prop("C02", "A finished torrent is published exactly, and all at once",
 "When the last piece is verified, the target directory holds exactly the torrent's content: one file for a single-file torrent, or for a multi-file torrent a directory tree in which every listed file (empty files and files sharing pieces included) has exactly its own length and bytes. Before that moment nothing of the torrent is visible under the target directory, and afterwards no piece work files of the torrent are left. This holds for every file layout, piece length and completion order.",
 ["inputs", "histories"], "all file layouts (lengths including 0 and 1, boundaries inside and at piece/block edges, nested paths), piece lengths, and completion orders",
 "Two fixed layouts are tested and only file sizes are compared, never the assembled bytes.",
 ST + ["storage/lazy_file_reader.go", "api/metainfo/metainfo.go"], [("coalescePiecesForSingleFile/MultiFile write a temp and rename it", "storage/storage.go"), ("lazyFileReader streams pieces in order", "storage/lazy_file_reader.go"), ("getBlockFromMultiFile maps ranges to files", "storage/storage.go")],
 ["files under the target and work directories after each operation", "GetBlock on the assembled torrent"])

prop("C03", "Block writes and reads validate their arguments",
 "A block write is accepted if and only if (piece index, offset, length) is exactly one block of the 16 KiB tiling of a piece that is not complete and that block is not already held; any other write returns an error (the 'block exists' error when it is a well-formed duplicate) and changes nothing. A block read succeeds only for ranges that lie inside the torrent and inside available data. No combination of integers makes a write or read crash.",
 ["inputs", "histories"], "all integer triples (index, begin, length), including negative, huge, misaligned, off-by-one-block and off-by-one-piece values, in every state of the piece and torrent",
 "Five argument tuples are tested, all with in-range indices.",
 ST + ["api/metainfo/metainfo.go"], [("checkBlockSize", "storage/storage.go:checkBlockSize"), ("GetPieceLength gives the short last piece", "api/metainfo/metainfo.go:GetPieceLength"), ("putBlock refuses held slots", "storage/torrent.go:putBlock")],
 ["Storage.PutBlock/GetBlock results and the state read back"])

prop("C04", "Concurrent storage operations are linearizable and deadlock-free",
 "Whatever block writes, block reads, piece resets and waits run concurrently on one torrent, every call returns, and the results are those of some sequential order of the calls consistent with real time. In particular a block is stored by exactly one of several concurrent writers of it, and a read that starts after a piece was reported complete succeeds.",
 ["schedules"], "all interleavings of concurrent PutBlock/GetBlock/ResetPiece/Wait calls on the same and on different pieces",
 "The one concurrent test gives each goroutine its own piece and reads only after its own writes, so no two goroutines ever contend on a piece.",
 ST + ["future/future.go"], [("Torrent.mu / Piece.mu lock order", "storage/storage.go:GetBlock,PutBlock")],
 ["call/return histories of the public storage API"])

prop("C05", "Every piece waiter gets its verdict; a failed piece can be retried",
 "A wait on a piece returns success exactly when the piece completes, and an error when the attempt it is waiting on fails verification or is reset; it never returns before one of these happens and never hangs after one did; waiting on the torrent returns when all pieces are assembled. Verification failure is reported to the write that filled the piece and to the waiters as a checksum error naming the piece; after a reset the piece can be written again from scratch, any number of times. Resetting a piece that is already complete leaves it complete.",
 ["histories", "schedules"], "all sequences of waits, writes, failures, resets (of empty, partial, failed and complete pieces) and re-attempts",
 "No test ever fails verification, resets a piece or waits on one.",
 ST + ["future/future.go"], [("piece.err future delivered on completion, failure and reset", "storage/torrent.go:reset,completePiece"), ("ResetPiece", "storage/storage.go:ResetPiece")],
 ["Piece.Wait / Torrent.Wait return values and times", "ResetPiece", "PutBlock errors"])

prop("C06", "Progress survives a crash at any point, and resume is exact",
 "If the process dies at any point, loading the same directories again reports as complete every piece whose completing write had returned, possibly the one being completed at the crash, and nothing else; loading never fails because of what the crash left behind. Downloading the remaining pieces then produces exactly the torrent's content, and a crash while the finished torrent is being assembled never leaves partial content visible as the finished torrent. Loading repeatedly changes nothing.",
 ["crash_points", "histories"], "process death between any two file-system effects of any operation, followed by any number of reloads and further writes",
 "The reload test only reloads at quiescent points and never interrupts an operation.",
 ST, [("temp file + rename for pieces and for the torrent", "storage/storage.go:coalesceBlocks,coalescePieces*"), ("Load", "storage/storage.go:Load")],
 ["directory contents at each crash point", "Load, Bitfield, GetBlock and target files after restart"])

prop("C07", "A torrent can only touch files inside its directories",
 "Whatever names and file paths a torrent's metainfo contains, loading it, downloading it and serving blocks of it never create, modify, delete or read a file outside the configured target and work directories. Torrents whose names or paths would lead outside are refused with an error instead; ordinary names are accepted.",
 ["inputs"], "all names and path lists: '..' and '.' components, absolute paths, embedded separators, empty strings, in single- and multi-file torrents",
 "Tests use only harmless fixed names.",
 ST + ["api/metainfo/metainfo.go"], [("path validation at load", "storage/storage.go:Load")],
 ["file-system tree around the target and work directories before/after", "Load/PutBlock/GetBlock results"])

prop("C08", "Reported progress equals the verified bytes",
 "At every moment the number of bytes the storage reports as downloaded equals the total length of the pieces that are verified complete, in this run or found by loading, for single- and multi-file torrents alike; failed or duplicate data never counts. The amount announced to trackers as left is the torrent's total length minus that number.",
 ["histories", "inputs"], "all histories of writes, failures, resets, completions and reloads; all single- and multi-file layouts",
 "Nothing in the tests reads the progress counter or an announce request of a live client.",
 ST + ["p2p/multitracker.go", "p2p/server.go"], [("Storage.downloaded", "storage/storage.go"), ("Tracker.get computes left", "p2p/multitracker.go:get")],
 ["Storage.Downloaded()", "the left parameter received by a tracker"])

prop("C09", "Peer wire messages round-trip and are framed exactly",
 "Encoding any handshake or peer message and decoding the bytes yields the same message, and the bytes are those of the BitTorrent peer protocol (BEP 3). Decoding consumes exactly one message, so any sequence of messages written back to back is read back as the same sequence however the byte stream is fragmented.",
 ["inputs", "histories"], "all message types and field values (32-bit indices, offsets and lengths; any bitfield and piece payload), all sequences of messages and all fragmentations of the stream",
 "One example per message type is tested, each alone in its own buffer.",
 ["api/peer/peer.go"], [("Message.Encode/Decode, Handshake.Encode/Decode", "api/peer/peer.go")],
 ["encoded bytes, decoded messages, remaining stream"])

prop("C10", "Malformed peer wire input is rejected, never fatal",
 "Decoding any byte sequence as a handshake or a peer message either yields a message whose fields are exactly those in the bytes or returns an error; it never crashes, and memory use stays proportional to the bytes actually received. A payload whose length does not fit its message type, a truncated frame, and a handshake with another protocol string are errors; a message of unknown type is consumed whole.",
 ["inputs"], "all byte strings: every type byte, every declared length from 0 to 2^32-1, every truncation",
 "Only well-formed messages are decoded in the tests.",
 ["api/peer/peer.go"], [("Message.Decode length checks", "api/peer/peer.go:Decode"), ("Handshake.Decode", "api/peer/peer.go:Decode")],
 ["decode result, error, bytes consumed, allocation"])

prop("C11", "Only correctly identified peers are admitted",
 "The client exchanges torrent messages with a remote, in either direction, only after receiving a complete handshake with the BitTorrent protocol string, this torrent's info hash, a peer ID that is not the client's own, and, when the tracker supplied a peer ID for the dialed address, that same ID. Its own handshake carries the torrent's info hash and its peer ID. Any other connection is closed without a single torrent message being sent to it or acted upon.",
 ["inputs", "histories"], "all handshakes (each field right, wrong, truncated, late), for incoming and dialed connections",
 "p2p has no tests at all.",
 ["p2p/peer.go", "p2p/server.go", "api/peer/peer.go"], [("Peer.Handshake", "p2p/peer.go:Handshake"), ("Server.Connect", "p2p/server.go:Connect")],
 ["bytes sent on the connection, whether it is closed"])

prop("C12", "Connection slots and peer registrations are exact",
 "At any time at most one connection per remote identity (peer ID and IP address) and at most 50 connections in total are active; a further one is closed without disturbing those already active. Whenever a connection ends, for whatever reason (rejected handshake, duplicate identity, protocol error, remote close), the client closes its end and frees its slot and registration, and only its own, so that the same or another peer can connect again, any number of times.",
 ["histories", "schedules"], "all sequences and interleavings of connects, duplicate connects, handshake failures, errors and disconnects",
 "p2p has no tests at all.",
 ["p2p/server.go", "p2p/peer.go"], [("peerSemaphore", "p2p/server.go:Serve,DialPeers"), ("activePeers, Connect, Disconnect", "p2p/server.go"), ("Peer.serve", "p2p/peer.go:serve")],
 ["accept/close/handshake behaviour seen by remote peers"])

prop("C13", "Block data is uploaded only as the protocol allows",
 "The client sends block data to a peer only after having unchoked that peer, only for a block of a piece it has verified, and only in answer to a request of that peer for exactly that range: each answer carries the torrent's bytes for the requested range and no request is answered more than once. Requests of an unchoked peer for verified data are answered, in the order received; a request received while choking the peer is never answered. Every connected peer is unchoked within some seconds, with a single unchoke message. Uploaded-byte counts equal the block bytes sent.",
 ["histories", "schedules", "inputs"], "all sequences of requests, cancels, choke changes and piece completions over any number of peers; all request ranges",
 "p2p has no tests at all.",
 ["p2p/peer.go", "storage/storage.go"], [("HandleRequest/HandleCancel", "p2p/peer.go"), ("Storage.GetBlock", "storage/storage.go")],
 ["PIECE messages received by remote peers", "Server.Uploaded"])

prop("C14", "Interest and requests follow the remote's state",
 "The client tells a peer it is interested when that peer announces (by bitfield or have) a piece the client lacks, and not interested once it finds the peer has nothing it lacks, alternating strictly and starting from not interested. It requests only blocks of pieces which that peer announced and the client had not verified, and only while that peer is not choking it and has been told of the interest; requests stop when the peer chokes and resume after it unchokes again.",
 ["histories", "schedules"], "all sequences of bitfield/have/choke/unchoke messages and piece completions over any number of peers",
 "p2p has no tests at all.",
 ["p2p/peer.go", "p2p/server.go"], [("HandleHave/HandleMessage", "p2p/peer.go"), ("requestPieceFromPeer", "p2p/server.go"), ("Send refuses requests while choked", "p2p/peer.go:Send")],
 ["INTERESTED/NOT_INTERESTED/REQUEST messages received by remote peers"])

prop("C15", "Each piece is fetched from one peer at a time, in exact blocks",
 "The requests for a piece are exactly the blocks of its 16 KiB tiling (the last one shorter), each at most once per attempt, and at no time are there attempts for the same piece on two peers, while different pieces may be fetched from different peers in parallel. A fetch that fails, is choked, times out or loses its peer frees the piece, so it is requested again from this or another peer that has it; a verified piece is never requested again.",
 ["histories", "schedules"], "all piece geometries and all interleavings of several unchoked peers with overlapping pieces, timeouts, chokes and disconnects",
 "p2p has no tests at all.",
 ["p2p/peer.go", "p2p/server.go", "api/metainfo/metainfo.go"], [("inflight map", "p2p/server.go:requestPieceFromPeer"), ("requestPiece/requestBlock", "p2p/peer.go")],
 ["REQUEST messages received by remote peers"])

prop("C16", "Rarest pieces are requested first",
 "When the client starts fetching a piece from a peer, it picks, among the pieces that peer has which the client lacks and is not already fetching, one held by the fewest currently connected peers. Peers that disconnected no longer count.",
 ["histories"], "all distributions of pieces over connected peers, including after peers join and leave",
 "p2p has no tests at all.",
 ["p2p/server.go"], [("indexToPeers and the sort in requestPieceFromPeer", "p2p/server.go")],
 ["the piece index of the first REQUEST after an unchoke"])

prop("C17", "Corrupt data is contained and the download still completes",
 "A peer whose data makes a fetched piece fail verification is disconnected and its address is not dialed again, and the piece is fetched again from another peer; the corrupt data is neither announced, served nor stored. As long as some connected, unchoking peer keeps answering requests correctly for each missing piece, the download completes with the exact content, whatever the other peers do (corrupt data, silence, chokes, disconnects).",
 ["fault_sequences", "histories"], "all mixes of honest, corrupting, silent, choking and disconnecting peers, any piece of theirs being the bad one",
 "p2p has no tests at all; no test stores corrupt data.",
 ["p2p/server.go", "p2p/peer.go", "storage/storage.go"], [("Block on ChecksumError", "p2p/server.go:requestPieceFromPeer"), ("ResetPiece before each attempt", "p2p/peer.go:requestPiece")],
 ["messages and connection state at remote peers, dial attempts, target content"])

prop("C18", "Peers are told exactly which pieces the client has",
 "The first message the client sends on a connection after the handshake is a bitfield of exactly the pieces verified at that time; every piece verified later, while the connection stays up, is announced on it with exactly one have message (a piece verified just as the bitfield is sent may be announced by both, never by neither), even if other connections fail meanwhile. It never announces a piece it cannot serve.",
 ["histories", "schedules"], "all interleavings of piece completions with peers connecting, disconnecting and failing",
 "p2p has no tests at all.",
 ["p2p/server.go"], [("Connect sends the bitfield under the registry lock", "p2p/server.go:Connect"), ("requestPiece broadcasts have", "p2p/server.go:requestPiece")],
 ["BITFIELD and HAVE messages received by every remote peer"])

prop("C19", "No remote peer can crash or wedge the client",
 "Whatever bytes a connected peer sends (malformed or well-formed messages with any field values, in any state and order) the client keeps running: at worst that connection is closed, and the other peers continue to be accepted, served and downloaded from. A connection on which the peer stops reading or answering does not stop service to the others.",
 ["inputs", "histories"], "all message sequences with arbitrary field values from one or more hostile peers, interleaved with honest ones",
 "p2p has no tests at all.",
 ["p2p/peer.go", "p2p/server.go", "api/peer/peer.go", "storage/storage.go", "bitfield/bitfield.go"], [("bounds checks in HandleHave, GetBlock, PutBlock, Decode", "p2p/peer.go, storage/storage.go, api/peer/peer.go")],
 ["liveness of the client process and of honest connections"])

prop("C20", "Stopping is clean and always terminates",
 "Stopping a running client, or a fatal error inside it, closes its listener and all its peer connections, tells the tracker it has stopped, and makes the start call return, at whatever moment it happens. Nothing is announced after that. A single failed tracker announce after startup does not stop a running client.",
 ["schedules", "fault_sequences"], "stopping at every moment: idle, while peers connect, unchoke, download and upload; with a failing tracker",
 "p2p has no tests at all.",
 ["p2p/server.go"], [("Start/Stop, contexts", "p2p/server.go"), ("queuePeer must not block under the lock", "p2p/server.go:queuePeer")],
 ["return of Start and Stop, closed sockets, tracker requests"])

prop("C21", "Tracker-supplied peers are dialed exactly as they should be",
 "Every valid address a tracker response lists (up to the 50 that can be pending at a time) is dialed, at most one connection attempt at a time per address however often it is listed, and may be dialed again by a later announce once its connection is over; addresses of blocked peers and malformed entries are skipped without affecting the others. Each tracker interval a new announce is made.",
 ["inputs", "histories"], "all tracker responses (duplicates, bad addresses, unreachable peers, compact and full form) over any sequence of announces",
 "p2p has no tests at all.",
 ["p2p/server.go", "p2p/multitracker.go"], [("AddPeer, knownPeers, blockedPeers, DialPeers", "p2p/server.go"), ("every(Announce)", "p2p/server.go:Start")],
 ["connection attempts seen by listeners, requests seen by the tracker"])

prop("C22", "Multi-tracker announces follow BEP 12",
 "An announce tries trackers tier by tier and within a tier in its current order, stops at the first one that answers successfully and returns that answer; the answering tracker moves to the front of its tier, the rest keeping their order, and tiers are never mixed. Initially each tier holds exactly the metainfo's trackers of that tier in some order (or the single announce URL when there is no list). If no tracker succeeds, or there is none, the announce returns an error; a failure reason in a response, an unreachable tracker and an undecodable response all count as failures.",
 ["inputs", "histories"], "all tier structures and all sequences of announces under any pattern of tracker successes and failures",
 "p2p has no tests at all.",
 ["p2p/multitracker.go"], [("Multitracker.get", "p2p/multitracker.go:get"), ("NewMultitracker", "p2p/multitracker.go")],
 ["order of requests received by trackers, returned response or error, Multitracker.TrackerTiers"])

prop("C23", "Announces tell the tracker the truth",
 "Each announce carries the torrent's info hash, the client's peer ID and listening port, its current uploaded, downloaded and left byte counts, and the event it is made for (started, completed, stopped or none), asks for the compact form, and keeps any query parameters already in the tracker's announce URL.",
 ["histories", "inputs"], "all announce URLs, all client states and events",
 "p2p has no tests at all.",
 ["p2p/multitracker.go", "api/tracker/tracker.go"], [("Tracker.get builds the request", "p2p/multitracker.go:get")],
 ["query strings received by a tracker"])

prop("C24", "The tracker hands out exactly the live swarm",
 "The bundled HTTP tracker answers an announce with every other peer of that torrent, and only those, whose last announce was at most a minute ago and was not a 'stopped' event, each exactly once with the address and peer ID it last announced, and never the requester itself, however addresses are spelled. Torrents do not see each other's peers; a stopped or expired peer that announces again is listed again. In the compact form, peers that have no IPv4 address are left out.",
 ["histories", "inputs"], "all sequences of announces (events, re-announces with changed peer IDs, explicit and implied IP addresses, IPv4 and IPv6) by any peers on any torrents, with any passage of time",
 "pex has no tests at all.",
 ["pex/http.go", "api/tracker/tracker.go"], [("HTTP.ServeHTTP", "pex/http.go"), ("cleanup goroutine", "pex/http.go:NewHTTP")],
 ["HTTP responses", "virtual time"],
 [("Torrent.Peers", "address -> last announce", "pex/http.go")])

prop("C25", "The tracker answers every request with well-formed bencoding",
 "Every announce the bundled tracker accepts gets a 200 response whose body is one well-formed bencoded dictionary with the interval and the peer list in the requested form (a compact string or a list of dictionaries, possibly empty); every other request gets a 400 response, with a failure reason for unknown info hashes, bad addresses and ports outside 1-65535. A rejected request leaves the swarm unchanged, and no request crashes the tracker.",
 ["inputs", "histories"], "all query strings and swarm states",
 "pex has no tests at all.",
 ["pex/http.go", "api/tracker/tracker.go", "bencode/encode.go"], [("HTTP.ServeHTTP", "pex/http.go"), ("Peers.MarshalBencoding", "api/tracker/tracker.go")],
 ["HTTP status and body"])

prop("C26", "Tracker requests and responses round-trip",
 "Decoding the encoding of any announce request gives back the same request, and decoding an encoded tracker response gives back the same peers in order: in full form with IDs, IPs and ports, in compact form with IPv4 addresses and ports. A malformed response or query gives an error and never crashes; a compact list whose length is not a multiple of 6 and peer entries without an ip or a port are errors.",
 ["inputs"], "all field values (any 20-byte strings, any 64-bit counts), all peer lists, all bencoded response shapes",
 "One request and one two-peer list are tested.",
 ["api/tracker/tracker.go", "bencode/decode.go"], [("Request.Encode/Decode", "api/tracker/tracker.go"), ("Peers.MarshalBencoding/UnmarshalBencoding", "api/tracker/tracker.go")],
 ["encoded and decoded values"])

prop("C27", "Bencoding is canonical and round-trips",
 "Encoding any supported value (strings, byte slices, signed and unsigned integers, lists, arrays, string-keyed maps, structs with tags, omitempty and embedding, pointers and interfaces) gives canonical bencoding: dictionary keys sorted and unique, no leading zeros, every key followed by a value. Decoding that into the same type gives back an equal value (absent optional parts staying absent), and equal values always encode to the same bytes.",
 ["inputs"], "all values of all supported types, including empty and nil containers, empty keys and extreme integers",
 "A few dozen fixed values are tested, and encoding and decoding never together.",
 ["bencode/encode.go", "bencode/decode.go", "bencode/raw_message.go"], [("Encoder, Decoder", "bencode/")],
 ["Marshal output, Unmarshal of it"])

prop("C28", "The decoder accepts exactly bencoding and never crashes",
 "For every byte string, decoding yields a value exactly when the input starts with one well-formed bencoded value (sorted unique dictionary keys, integers without leading zeros or plus signs or negative zero, non-negative string lengths that are fully present) that fits the destination type, and otherwise returns an error: integers that do not fit the destination are errors, not truncated. It never crashes, hangs, or allocates memory out of proportion to its input, whatever the nesting depth or declared lengths (nesting beyond some hundreds of levels may be refused).",
 ["inputs"], "all byte strings and all destination types, including nested pointers, slices, arrays, maps, structs and interfaces",
 "Some thirty inputs are tested, none of them hostile.",
 ["bencode/decode.go"], [("Decoder.decode*/consume*", "bencode/decode.go")],
 ["Unmarshal value, error and allocation"])

prop("C29", "Metainfo identity and geometry are exact",
 "The info hash of a parsed torrent is the SHA-1 of exactly the bytes of its info value as they appear in the file, whatever unknown fields it contains. Piece hashes are the consecutive 20-byte groups of the pieces string (any other length is an error), all other documented fields, multi-file lists included, are read faithfully, and the piece lengths add up to the total length with every piece but the last having the full piece length.",
 ["inputs"], "all metainfo files: single- and multi-file, optional and unknown fields, any lengths",
 "One single-file info dictionary is tested.",
 ["api/metainfo/metainfo.go", "bencode/decode.go"], [("Info.UnmarshalBencoding hashes the raw bytes", "api/metainfo/metainfo.go"), ("consume* reproduce the raw bytes", "bencode/decode.go"), ("GetPieceLength/GetLength", "api/metainfo/metainfo.go")],
 ["Metainfo/Info fields after Unmarshal"])

prop("C30", "Bitfields behave as sets of piece indices",
 "A bitfield for n pieces starts empty; adding an index makes exactly that index present, most significant bit first as on the wire; membership of an index outside the field is false; listing gives the members in increasing order; the difference holds exactly the members of the first that are not in the second, whatever their lengths, without modifying either.",
 ["inputs", "histories"], "all sizes, all sequences of additions, all pairs of fields of any lengths",
 "A handful of fixed bytes are tested, and the membership test panics on one of them.",
 ["bitfield/bitfield.go"], [("New/Has/Add/Items/Difference", "bitfield/bitfield.go")],
 ["return values and the raw bytes"])

prop("C31", "Futures deliver one value to every waiter",
 "Every wait on a future returns the delivered value, whether it started before or after the delivery and however many waiters there are; no wait returns before the delivery, and the done channel is closed exactly from the delivery on.",
 ["schedules"], "all interleavings of one delivery with any number of waiters",
 "future has no tests.",
 ["future/future.go"], [("Deliver stores the value before closing the channel", "future/future.go")],
 ["Wait results and the Done channel"])

prop("C32", "Messages on a connection never interleave",
 "However many parts of the client send to the same peer at the same time (block answers, requests, have announcements, unchokes), the byte stream the peer receives is always a sequence of whole, well-formed messages, each sent once and each with the content it was sent with.",
 ["schedules"], "all interleavings of concurrent senders to one peer",
 "p2p has no tests at all.",
 ["p2p/peer.go", "api/peer/peer.go"], [("Peer.Send holds the connection lock for the whole message", "p2p/peer.go:Send")],
 ["byte streams received by remote peers"])

prop("C33", "Magnet links are parsed field by field",
 "Parsing a magnet link yields the exact topic, display name, length, web seed, and all trackers and peer addresses in order, percent-decoded, wherever they stand in the link; absent fields are empty. A link that is not a valid URL or whose length is not an integer is an error.",
 ["inputs"], "all links: any parameter order, repetition, escaping and absence",
 "One link is tested.",
 ["api/magnet/magnet.go"], [("ParseMagnetURL", "api/magnet/magnet.go")],
 ["returned Magnet or error"])

prop("C34", "A swarm of clients gets every piece to everybody",
 "Clients of one torrent that use the same tracker find each other and pass pieces on, however the pieces were spread over them at the start. Pieces come only over connections, from clients that have them; no client ever loses a piece that it verified, whatever stops, breaks or does not answer; and the bytes that the clients count as received are covered by those they count as sent. Once clients, connections and tracker work (again), every piece that anybody holds reaches everybody within a few announce intervals, and each client that has all of them has published exactly the torrent's files, the others none.",
 ["schedules", "histories", "faults"], "any number of clients, distribution of pieces, order of starts, stops and restarts, latency, broken connections, unreachable clients and failing announces",
 "No test starts a client, let alone two.",
 ["p2p/server.go", "p2p/peer.go", "p2p/multitracker.go", "pex/http.go", "storage/torrent.go"],
 [("announce loop and connecting to what the tracker names", "p2p/server.go"), ("fetching and answering blocks, have messages", "p2p/peer.go"), ("the tracker's peer list", "pex/http.go:ServeHTTP")],
 ["which pieces each client reports verified", "connections between clients", "uploaded/downloaded counters", "target directories"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
