#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.txt from the fix commits of /repo (run by hand)."""
import os, subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "8b6aa20.."], capture_output=True, text=True).stdout
F = {
"b4a027c": ("C30", "Has panicked for an index outside of the field"),
"045a64d": ("C28", "decoding into nil pointers inside slices, maps and pointers panicked"),
"3c61f87": ("C28", "a negative string length panicked and a huge declared one allocated gigabytes"),
"79830bf": ("C28", "a dictionary whose first key is the empty string was refused"),
"a979c93": ("C28", "integers that overflow the destination were truncated"),
"b3049d5": ("C28", "i+1e was accepted"),
"282df73": ("C28", "well-formed integers beyond 64 bits were refused even where they are only skipped"),
"85f283c": ("C28", "decoding a shorter list into a slice kept its old tail"),
"baf64bd": ("C28", "decoding into an interface that holds a non-pointer value panicked"),
"a24734a": ("C28", "decoding into a nil pointer to an unexported embedded struct panicked"),
"33b6467": ("C28", "deeply nested input overflowed the stack"),
"1050da8": ("C27", "nil map values were encoded as a key without a value"),
"e8b298e": ("C27", "a nil inside a list was dropped and in a dictionary left a key without a value"),
"2384769": ("C27", "encoding an untyped nil panicked"),
"5bbd1ea": ("C27", "pointer-receiver marshalers were ignored for values that are not addressable"),
"aa6c013": ("C10", "payloads that do not fit their message type panicked"),
"5346523": ("C10", "a declared message length of 4 GB was allocated up front"),
"b8a280f": ("C10", "a handshake read from a reader that returns no bytes at first was read short"),
"75b5350": ("C26", "malformed peer dictionaries panicked"),
"528ef17": ("C25", "an empty peer list was encoded as nothing, which made the response malformed"),
"ff345c1": ("C26", "ports that do not fit the compact form were truncated"),
"27792de": ("C26", "info hashes and peer IDs that are not 20 bytes long were accepted"),
"fdff0d5": ("C03", "PutBlock with an index outside of the torrent panicked"),
"db1641a": ("C03", "GetBlock outside of the torrent panicked"),
"6129552": ("C04", "concurrent GetBlock and PutBlock deadlocked"),
"4724351": ("C05", "a piece that failed its checksum could never be downloaded again, and a complete one could be reset"),
"af386c4": ("C08", "the bytes downloaded were those of the blocks received, corrupt ones included"),
"e243362": ("C01", "damaged piece files were loaded as complete pieces"),
"ed8b02b": ("C06", "loading a second time panicked"),
"ce9994a": ("C07", "names with .. or separators led outside of the target directory"),
"76e5477": ("C02", "torrents whose name is near the limit of file names could not be assembled"),
"2a21747": ("C06", "work files of a finished torrent stayed for ever after a crash"),
"2eb6bfd": ("C01", "any existing file of the torrent's name was taken for the finished torrent"),
"51539ba": ("C22", "announcing without any tracker returned neither a response nor an error"),
"9a4aacb": ("C23", "the query of the announce URL was lost"),
"e5147be": ("C22", "response bodies were never closed"),
"17c965f": ("C23", "the bytes left of a multi-file torrent were wrong"),
"30a4a80": ("C22", "concurrent announces corrupted the tiers"),
"dadb961": ("C22", "a tracker that does not answer held up an announce for ever"),
"b3986bb": ("C22", "a response without peers crashed the client"),
"8398052": ("C24", "a requester was listed to itself under another spelling of its address"),
"0068d0e": ("C24", "the first peer ID of an address was listed for ever"),
"805da38": ("C25", "ports outside of 1-65535 were accepted"),
"9f3cd1a": ("C24", "a peer without an IPv4 address broke every compact response"),
"b8d5fe6": ("C25", "a bad remote address got no failure reason"),
"6458d49": ("C12", "refusing a connection left the server locked"),
"89e36eb": ("C12", "closing a duplicate connection removed the registration of the active one"),
"2126e16": ("C12", "connections that failed during setup were never closed"),
"56603d7": ("C20", "connections in their handshake stayed open when the client stopped"),
"11b95f2": ("C15", "the map of pieces in flight was changed without the lock, and crashed"),
"f60499b": ("C16", "the rarity sort compared positions instead of pieces"),
"5141912": ("C19", "a have or bitfield beyond the torrent panicked"),
"7bf8736": ("C17", "a peer that sent corrupt data and closed was dialed again"),
"fdfd4dd": ("C18", "a peer that could not be told of a piece kept the have message from the others"),
"ed66005": ("C19", "a peer that stops reading blocked the client for ever"),
"58df64c": ("C20", "stopping deadlocked while a peer was being queued"),
"b721888": ("C20", "a tracker response without an interval panicked"),
"bb3ac98": ("C20", "one failed announce stopped the client"),
"a9bd22f": ("C21", "an address was never dialed a second time"),
"bcbd9a2": ("C21", "IPv6 peers could not be dialed"),
"bf80381": ("C20", "pending dials went on for 30 s after stopping"),
"e683b4f": ("C14", "a piece was requested right after the peer choked"),
"da7de5d": ("C17", "blocks nobody requested were stored, so that one peer could spoil what another delivered"),
"68f3f1a": ("C13", "a late cancel suppressed the answer to a later request"),
"15ed080": ("C14", "choke and interest messages could be sent in another order than the states were changed"),
"e4f1b71": ("C14", "interest was told after the first request, and the server was locked while it was sent"),
"6448f88": ("C17", "a peer that never answers kept taking the piece again before any other could"),
"5df00c1": ("C28", "each short string took a large buffer"),
"2f3855e": ("C14", "a request could overtake the interested message"),
"72a09f1": ("C20", "an announce that was under way followed the one that the client has stopped, so that the tracker listed it again"),
"e0ee14e": ("C34", "two clients that sent to each other waited for each other until both connections timed out, again and again"),
}
out = ["# Defects of browles/drip found with these checks. 'fixed:' lines record repairs and suppress nothing.",
       "# A line 'finding: property=ID key=TEXT what fails' names a defect that is not repaired, where TEXT is part",
       "# of the violation that it causes, or of the test in bin/ that recognizes it.", "",
       "finding: property=C34 key=crossed-connections two clients that connect to each other at the same time may each keep the connection that the other one closes, and do so again at every announce as long as their announces coincide (history: findings/C34-crossed-connections.json)"]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        out.append("fixed: property=%s %s %s" % (F[h][0], h, F[h][1]))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "KNOWN_FINDINGS.txt"), "w").write("\n".join(out) + "\n")
print(len(out))
