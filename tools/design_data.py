"""Per property: oracle, bounds, cost/reach, false alarms corrected; planted = mutants tried on it (caught/total non-equivalent)"""
D = {
"C01": ("Sanitizers, assertions and the structural monitor are the oracle; chaos sessions (`vsim/chaos.py`) mix every command with valid, near-valid and random parameters, as client, oper, unregistered and server connections, with cuts, stalls and rehashes.", "About 500 batches per case, 1000 cases quick; up to 4 servers' worth of peers per process; users that go through several nicks and leave; a fifth of the cases has an operator that SETs numeric features to 0, -1, 1, 99999 or nonsense.", "BUFFERPOOL 0 and allocations of gigabytes (POLLS_PER_LOOP 2147483647) end the server by design and are not set."),
"C02": ("Independent reference of line framing and tag limits; every line the server acts on carries a token that must come back exactly as written.", "Lines up to 9 kB, segments of 1 byte to everything.", "Input beyond the flood limit was first misjudged; C16 owns it."),
"C03": ("Numbered and checksummed lines at every receiver: a receiver sees a gap-free, unreordered, undamaged prefix, or is disconnected with the documented reason; memory of queues is checked against sendq limits.", "Up to 8 readers with random stall patterns; PINGs, which go ahead of queued output, fall into partly written lines.", "The kernel buffer of the shim had to be counted in the allowance."),
"C04": ("`vsim/model.py`: executable reference of who hears what; `vsim/mw.py` compares all traffic of all clients after each command.", "1–3 real servers, up to about 10 clients, 60 commands per case.", ""),
"C05": ("Same reference, channel membership, invitations, keys, limits, JOIN/PART/KICK/INVITE.", "As C04.", ""),
"C06": ("Same reference, bans/exceptions and who may speak, including hidden hosts, accounts, IP masks.", "As C04.", ""),
"C07": ("Same reference, channel modes and oplevels, MODE lines as sent and as applied.", "As C04.", ""),
"C08": ("Case (a) by the same reference; case (b) collision rules written from the P10 documentation: each nick in use once, the survivor per timestamp and user@host.", "Two scripted peers, three observers.", ""),
"C09": ("Views of 2–4 real servers, taken from their own net bursts to a fresh peer (`vsim/views.py`), are compared pairwise after healing, with what clients saw (`vsim/cview.py`), and with what the ages of the two sides' channels say about modes, bans, topic, members and pending invitations.", "Random tree topologies, splits, delays, chunked delivery; channels with dense overlapping settings on both sides of a merge.", "A delayed join revealed tells the user its own JOIN again. Conflicting simultaneous +k/+l/+o changes are outside (P10 does not converge on them)."),
"C10": ("Reference tree (`vsim/tree.py`): each departure tells each neighbour and client exactly what left.", "Trees of up to about 20 servers; the first and last user numbers of small and large ranges are used.", ""),
"C11": ("Reference of the documented G-line state machine (doc/readme.gline), checked after every step at users, connecting clients, neighbours and GLINE listings.", "400 long cases; masks over nick!user@host, IP/CIDR, realname, channels.", "A channel G-lined both ways is excluded: which of the two a query finds depends on hash order."),
"C12": ("Reference of jupes (doc/readme.jupe).", "2500 cases.", ""),
"C13": ("Two runs differing only in hidden facts must be byte-identical to ordinary observers (a two-run non-interference monitor); a third leg checks that operators with the privilege see them, so that the comparison is not vacuous.", "1200 pairs.", "Timing, target change and oplevel effects that legitimately differ were removed from the generator, each with a comment in c13.py."),
"C14": ("Reference of IPcheck, Client/Class/Kill/Operator admission, with counters read from the sign-on notice.", "2500 cases.", ""),
"C16": ("Reference of the penalty clock, the input buffer and the two-second timer of every connection; the second of each effect is compared.", "1200 cases of some 100 commands.", "Operators pay as well: nearly all commands are marked slow."),
"C17": ("Definition-level matcher (dynamic programming over tokens), brute force over all names up to 5 characters for mask comparison, `inet_pton` and own printers for addresses.", "About 10^7 comparisons per quick run.", "Backslashes before ordinary characters are excluded for the compiled forms, which document no meaning for them."),
"C18": ("The same conversation on two server processes, over TCP and over WebSocket, compared line by line; strict frame decoder; reference of handshakes.", "900 cases (half conversations, a third 12 handshakes each, the rest ends and keepalive).", "A full socket at QUIT first looked like a torn frame. A line in the same packet as a Close is not judged (the server drops it)."),
"C19": ("Reference of CAP negotiation and of the form and tags of every line per recipient, compared in order.", "3000 cases, about 30 000 combinations of event and recipient's capabilities.", "A 437 or a dropped part reason on moderated channels, and host masks matching the real host, were first missing in the reference."),
"C21": ("Reference of the registration state machine, ident service included.", "2500 cases.", ""),
"C22": ("Reference of Operator blocks, classes, privileges, user modes and privileged commands.", "2500 cases, among them KILLs with each of the old nicks of users that stayed or left.", ""),
"C24": ("Online monitor of times: last sign of life, ping, end of every connection against the limits of its class.", "800 cases of 400 to 1000 virtual seconds with up to nine connections.", "A second server's EB makes the first answer EA, which was first missed as a sign of life; the moment of registration is only known up to a sampling step."),
"C25": ("Reference of the users, channels and history; the answer is computed from it and compared row by row.", "2000 cases of about 20 queries with up to 260 users or 400 channels.", "The mask ** is an address mask for every address, which was first not foreseen; answers longer than the socket buffer were first judged before they had been read."),
"C26": ("Same reference as C04 plus the server-to-server silence relay.", "As C04.", ""),
"C27": ("Own encoders, libc formatting, byte-exact queue models.", "About 10^7 evaluations per quick run.", "Zero padding of negative numbers, which the server never uses and its formatter pads differently, is excluded."),
"C30": ("Reference of link admission and of loop resolution (which link goes).", "1500 cases.", ""),
"C31": ("For every message kind: the exact line expected at each neighbour, or none.", "2000 cases.", ""),
"C32": ("Reference of SASL sessions, the sasl capability, accounts and network configuration records against a scripted login service.", "2200 cases.", "The operators' notice about a refused ACCOUNT was first taken for a relay."),
}
