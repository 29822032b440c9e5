W = "TLA+ model explored by TLC; every transition walked through the real code"
T = "TLA+ trace validation of recorded concurrent executions"
NOTES = {
"C01": (W, "Exhaustive over all reachable states of a two-piece storage (bad/good blocks, resets, reads, waits, reloads) and all combinations of damaged work files; assumes SHA-1 and that behaviour is uniform in block contents."),
"C02": (W + "; TLC-enumerated file layouts", "All layouts within the bounds (up to 4 files, boundaries at byte, block and piece edges), all completion orders of up to 4 pieces; contents compared byte by byte."),
"C03": (W + " with extreme integer arguments", "All combinations of the listed indices, offsets and lengths (negative, huge, misaligned, off by one) in every state of small torrents with two geometries."),
"C04": (T + " (linearizability)", "Recorded histories of 3-4 threads must linearize to the sequential model; schedules are sampled, not enumerated; a call that does not return within 20 s is reported."),
"C05": (W + " with pending waiters", "Exhaustive over waits, failures, resets and retries of a two-piece storage; thorough also validates concurrent histories."),
"C06": ("TLA+ crash model checked by TLC; traces of processes killed at every file-system call validated against it", "Every file-system call of a download (single and multi-file) is a crash point, with sampled double and triple crashes; process death only, not power loss."),
"C07": ("TLA+ path resolution; TLC-enumerated hostile names tried by an unprivileged process", "All names and paths up to two components (thorough: deeper) over 21 hostile component shapes, with sentinels around the directories."),
"C08": (W, "The byte counter compared in every state of the storage, load and layout models; the announced amount in the multitracker and swarm models."),
}
NOTES.update({
"C09": ("TLA+ wire codec; every message TLC enumerates encoded and decoded by the real code", "All message types with boundary field values and payload sizes; message sequences up to the queue bound under five fragmentations of the stream."),
"C10": ("TLA+ frame decoder; every frame TLC enumerates given to the real decoder", "All frames with bodies up to 19 bytes, every type (thorough: all 256), all declared lengths around them and huge ones, truncated everywhere; allocation measured per frame."),
})
NOTES.update({
"C30": ("TLA+ bitfields; every transition TLC enumerates walked through the real code", "All fields up to 17 pieces (thorough: 26) with up to three members; arbitrary byte strings up to 2-3 bytes and all their differences; 64-bit extremes as indices."),
"C31": ("TLA+ trace validation of recorded histories of futures", "Recorded histories of four threads (waits, looks at the channel, delivery or none) of five value types; schedules are sampled."),
"C33": ("TLA+ magnet link parser; every link TLC enumerates parsed by the real code", "All sequences of up to 2-4 parameters over escaped, empty, repeated and malformed values."),
})
NOTES.update({
"C22": ("TLA+ multitracker; every transition TLC enumerates walked against fake HTTP trackers", "All orders and answer patterns of announce lists with up to 4-5 trackers in up to 5 tiers (empty tiers, unreachable and repeated trackers included), twelve kinds of failure plus silence."),
"C23": ("TLA+ announce model walked through the real client; swarm traces for the transfer counters", "All progress states of small torrents, identities with every byte value, several announce URLs and amounts beyond 2^32; transferred amounts checked in recorded swarms."),
"C24": ("TLA+ tracker with a clock, walked in a virtual-time bubble; trace validation of concurrent announces", "All swarm states of up to 3 addresses (thorough: 4), 2 IDs and 5 ages, two torrents, and all their announces; concurrent histories are sampled."),
"C25": ("TLA+ tracker walked through the real one with every kind of malformed request", "36 kinds of rejected requests in every swarm state of two or three addresses; every reply parsed strictly; the whole swarm is probed after each request."),
"C26": ("TLA+ tracker protocol; requests, responses and malformed inputs enumerated by TLC", "Requests over boundary values of all fields; responses with up to 3 (thorough: 4) peers; malformed peer lists, cuts at every byte."),
})
NOTES.update({
"C27": ("TLA+ encoder over trees of Go types and values; every case TLC enumerates encoded and decoded by the real code", "All leaf types with their boundary values in every container, containers nested twice (thorough: three times), all orders of up to 4 map keys and 2-3 struct fields, embedded structs two levels deep; struct types are built by reflection from the model's descriptions."),
"C28": ("TLA+ pushdown decoder; every input TLC enumerates given to the real decoder", "All inputs of up to 8 bytes (thorough: 10) over a 13-letter alphabet, minus the extensions of prefixes that are already malformed, each into 15 destination types and 10 surroundings; integer bounds of all types; deep nesting and huge lengths with allocation measured."),
"C29": ("TLA+ torrent files; every file TLC enumerates parsed by the real code", "All files deviating from a plain one in up to two fields (thorough: three) out of 130 field variants, unknown and malformed ones included; all geometries of up to 3-4 files in three units up to 2^30."),
})

S = "TLA+ trace validation of recorded executions of the real client among scripted remotes on virtual time"
E = " All sequences of up to 3-4 stimuli over the part of the environment it concerns, enumerated by TLC, are played too."
NOTES.update({
"C11": (S, "Random histories of incoming and dialed connections with every kind of wrong, cut, late and missing handshake; sampled, not exhaustive." + E),
"C12": (S, "Random histories of up to 90 connections over colliding and fresh identities, around the limit of 50; sampled." + E),
"C13": (S, "Random requests (in range, crossing pieces, senseless, early, repeated, cancelled) of several remotes during choke rounds and completions; every answer compared byte by byte." + E),
"C14": (S, "Random histories of bitfields, haves, chokes, answers and completions over up to 9 remotes; sampled schedules." + E),
"C15": (S, "Piece geometries of up to 18 blocks; overlapping pieces at several remotes, timeouts on the virtual clock, chokes and disconnects; sampled schedules." + E),
"C16": (S, "Up to 6 pieces over up to 10 remotes that come and go; the chosen piece is checked whenever the counts are certain." + E),
"C17": (S, "Mixes of good, corrupting, silent, flapping and vanishing remotes; completion is required within 400 virtual seconds when a remote answers everything." + E),
"C18": (S, "Every bitfield and have of every connection checked against the verified pieces, with completions and disconnects under way." + E),
"C19": (S + " and on the real clock", "Random hostile messages with extreme fields, junk and handshakes in the wrong place, next to honest remotes; remotes that stop reading run on the real clock." + E),
"C20": (S + " and on the real clock", "Stops at random moments of random histories, while starting too, with failing and hanging trackers, by Stop or a failing listener." + E),
"C21": (S, "Random tracker responses (of up to 130 addresses, repeated, malformed, IPv4-mapped, busy, blocked addresses) and hosts that accept, refuse, hang or answer late." + E),
"C34": ("TLA+ model of a swarm checked by TLC (safety and liveness); traces of several real clients and the real tracker validated against it", "2-5 real clients on virtual time with latency and faults, random and all TLC-enumerated sequences of five (sampled in the quick tier) starts, stops, broken connections, unreachable clients and tracker failures of three; schedules are sampled."),
"C32": (S + " and on the real clock", "The byte stream of every connection parsed whole, with writes that yield in the middle, stall and resume; contents compared."),
})
