T_INV = "runtime monitoring: sanitizers plus invariant monitor under randomised hostile workload"
T_MODEL = "runtime monitoring: online reference-model checker over the recorded protocol events of every participant"
T_REC = "runtime monitoring: trace-specification checker over recorded traffic under generated workloads with fault injection"
N_EXP = "Holds on the executions explored; assumes the virtual socket/clock layer is faithful to the kernel interface and that the oracle encodes the documented semantics."

p("C01", "No input makes the server crash, hang or corrupt memory",
  """Whatever bytes clients, unregistered connections, peer servers and local configuration send, in any order and with any timing, the server never crashes, aborts on an
  assertion, exits on its own, loops without making progress, or reads or writes memory outside live objects. Only an authorised DIE/RESTART or a termination signal ends the process.""",
  ["inputs", "histories", "fault_sequences"], "all byte streams on all connections, all interleavings and socket-level faults",
  "Tests send a few hundred well-formed lines; memory errors need rare states, orders, lengths and disconnects, and the plain build does not notice most of them.",
  ["ircd/parse.c", "ircd/packet.c", "ircd/s_bsd.c", "ircd/s_misc.c", "ircd/channel.c", "ircd/send.c", "ircd/s_user.c", "ircd/m_*.c"],
  [("bounded parsing and buffers", "ircd/parse.c, ircd/packet.c, ircd/ircd_snprintf.c"), ("client life cycle and reference removal", "ircd/s_misc.c exit_client/remove_dependents"),
   ("event reference counts", "ircd/ircd_events.c")],
  observe=["sanitizer reports", "process exit status", "event-loop idleness"], hook="object pools bypassed so that ASan sees stale references (VERIF_HOOKS)",
  tech=T_INV, note=N_EXP + " Memory errors are seen only where ASan/UBSan/asserts can see them (heap, stack, globals, arithmetic UB).")

NM = N_EXP + " Commands run one at a time, each after the network has settled."

p("C04", "Every client's picture of users and channels agrees with the server, on every server",
  """After every command, each connected client has received exactly the JOIN/PART/QUIT/NICK/MODE/AWAY/ACCOUNT events it is entitled to (once, in order, with the right source),
  and NAMES, WHOIS, ISON, USERHOST, MODE queries answered on any server of the network describe the same users, channel membership, status, modes, away and account state.""",
  ["inputs", "histories"], "all command histories of all users on any number of linked servers",
  "State is spread over several indexes and servers; a test looks at one reply after one short script, not at every observer after every event.",
  ["ircd/channel.c", "ircd/m_names.c", "ircd/m_whois.c", "ircd/m_ison.c", "ircd/m_userhost.c", "ircd/m_part.c", "ircd/m_quit.c", "ircd/m_away.c", "ircd/s_user.c"],
  [("membership lists", "ircd/channel.c add_user_to_channel/remove_user_from_channel"), ("common-channel fan-out", "ircd/send.c sendcmdto_common_channels_butone")],
  tech=T_MODEL, note=NM)

p("C05", "JOIN admits exactly those the channel's modes, bans, limits and invitations allow",
  """A JOIN succeeds iff the user is not already on the channel, is under the per-user channel limit, matches no effective ban, and satisfies +i, +k, +l, +r and +Z (or holds an invitation,
  which INVITE may grant only when the inviter is allowed to and which is consumed by joining); otherwise the user stays off the channel and is told the documented reason.
  A user entering a channel that does not exist becomes its operator, and nobody else does by joining.""",
  ["inputs", "histories"], "all histories of channel modes, bans, invitations, joins and parts",
  "Admission depends on the whole history of modes, bans (with caches), invitations, nick and account changes; tests sample a few combinations.",
  ["ircd/m_join.c", "ircd/m_invite.c", "ircd/channel.c"],
  [("admission", "ircd/m_join.c m_join"), ("ban matching and caching", "ircd/channel.c find_ban/is_banned"), ("invite list", "ircd/channel.c add_invite/del_invite")],
  tech=T_MODEL, note=NM)

p("C06", "A message reaches exactly the recipients it should, once each, or is refused",
  """PRIVMSG, NOTICE, CPRIVMSG/CNOTICE, WALLCHOPS and WALLVOICES are delivered exactly once to every entitled recipient on every server and to nobody else, with the true sender and unchanged text;
  they are refused with the documented reply (silently for notices) when +n, +m, +M, +c, +C, +r, a ban, delayed join or the target's state forbids them; a deaf (+d) user hears no channel traffic.""",
  ["inputs", "histories"], "all senders, targets, channel states and network shapes",
  "Delivery is a fan-out over local members and server links with several exclusion rules; losing or doubling one copy shows only for particular membership layouts.",
  ["ircd/ircd_relay.c", "ircd/m_privmsg.c", "ircd/m_notice.c", "ircd/m_wallchops.c", "ircd/m_wallvoices.c", "ircd/m_cprivmsg.c", "ircd/send.c", "ircd/channel.c"],
  [("permission to speak", "ircd/channel.c member_can_send_to_channel/client_can_send_to_channel"), ("fan-out", "ircd/send.c sendcmdto_channel_butone")],
  tech=T_MODEL, note=NM)

p("C07", "Only channel operators change a channel, and every member sees the same result",
  """MODE changes, KICK and TOPIC take effect iff the actor holds the authority the channel's modes require (operator; +t for topics; services +k are immune), with one reply naming why otherwise;
  each accepted change is applied exactly as announced to all members on all servers, respects limits (ban count, six parameters, key syntax) and is visible to later queries.""",
  ["inputs", "histories"], "all mode strings and parameter lists from all users in all channel states",
  "Mode parsing has many interacting rules (add/remove order, parameter budget, ban overlap, bounce); tests cover only canonical single changes.",
  ["ircd/channel.c", "ircd/m_mode.c", "ircd/m_kick.c", "ircd/m_topic.c", "ircd/m_opmode.c"],
  [("mode parsing", "ircd/channel.c mode_parse"), ("mode announcement", "ircd/channel.c modebuf_flush"), ("ban lists", "ircd/channel.c apply_ban")],
  tech=T_MODEL, note=NM)

p("C08", "A nickname belongs to at most one user on the network",
  """At any quiescent moment no two users on any server hold the same nickname under the IRC case mapping; NICK is refused when the nick is taken, malformed, juped or forbidden by a ban on a joined channel.
  When servers introduce the same nick, the timestamp rules decide: the older of two different users survives, the newer of two sessions of the same user@host survives, equal timestamps kill both, and the losers disappear everywhere.""",
  ["inputs", "histories", "schedules"], "all nick changes, introductions and collisions with all timestamp orders and identities",
  "Collisions need two servers racing with particular timestamps and identities; the test suite has single-server scenarios.",
  ["ircd/m_nick.c", "ircd/s_user.c", "ircd/hash.c", "ircd/channel.c"],
  [("collision resolution", "ircd/m_nick.c ms_nick"), ("nick hash", "ircd/hash.c hChangeClient"), ("set_nick_name", "ircd/s_user.c")],
  tech=T_MODEL, note=NM)

p("C09", "Servers converge to the same network state after splits, merges and races",
  """Whatever users do while links are cut, delayed and re-established, once every server is linked and traffic has drained all servers report the same users and channels with the same members,
  and the connected clients are exactly the users known everywhere. Without nick collisions and with channels that stay populated they also agree on timestamps, modes, keys, limits, bans and topics,
  the merge keeps the older channel's settings and operators (union when equally old, net riders removed from +i/+k/+r channels), and each client's own view matches its server.""",
  ["inputs", "histories", "schedules", "fault_sequences"], "all user histories, link failures, delivery orders and chunkings over tree topologies of 2-4 servers",
  "Convergence bugs need concurrent activity on both sides of a split or messages crossing on slow links; no test drives that.",
  ["ircd/m_burst.c", "ircd/m_create.c", "ircd/m_join.c", "ircd/m_destruct.c", "ircd/m_endburst.c", "ircd/s_serv.c", "ircd/channel.c", "ircd/m_nick.c", "ircd/m_topic.c"],
  [("burst merge", "ircd/m_burst.c ms_burst"), ("burst emission", "ircd/channel.c send_channel_modes, ircd/s_serv.c server_estab"), ("zannels/DESTRUCT", "ircd/destruct_event.c, ircd/m_destruct.c")],
  tech=T_REC, note=N_EXP + " Simultaneous conflicting changes, collision kills crossing bursts and channels emptying mid-race are compared on membership only.")

p("C26", "A silenced sender is not heard, and SILENCE lists behave as documented",
  """A user receives no private message, notice or invitation from a sender matching an effective SILENCE mask (exceptions with ~ win), and still receives those from senders that do not match, wherever sender and target
  are connected; SILENCE additions, removals, overlap handling and the list size limit give exactly the documented list.""",
  ["inputs", "histories"], "all silence lists, senders and network positions",
  "Matching depends on list order, exceptions, nick changes and lazy propagation between servers.",
  ["ircd/m_silence.c", "ircd/s_user.c", "ircd/ircd_relay.c"],
  [("list update", "ircd/m_silence.c apply_silence"), ("suppression", "ircd/s_user.c is_silenced")],
  tech=T_MODEL, note=NM)

p("C02", "Commands are read whole from the byte stream, however it is cut",
  """Each line a connection sends (ended by CR and/or LF) is executed exactly once, in order and whole, with the parameters as sent, no matter how TCP cuts the stream into segments or packs several lines together, for clients and
  peer servers, before and after registration. Blank lines are ignored; a client line over 510 bytes (message tags apart) is refused as a whole with 417, a server's is cut at 512, and neither spills into the next command.""",
  ["inputs", "schedules"], "all byte streams and all ways of cutting them into reads",
  "Tests write one line per send; partial reads, coalescing and boundary lengths are what loses or merges commands.",
  ["ircd/packet.c", "ircd/dbuf.c", "ircd/s_bsd.c", "ircd/parse.c"],
  [("client line extraction", "ircd/dbuf.c dbuf_getmsg, ircd/s_bsd.c read_packet"), ("server line assembly", "ircd/packet.c server_dopacket/connect_dopacket"), ("parameter splitting", "ircd/parse.c")],
  tech="runtime monitoring: reference framing oracle over recorded streams, random segmentation and short reads", note=N_EXP)

p("C03", "What the server sends arrives whole, in order, once, and no slow reader can make it hoard output",
  """Every connection receives a sequence of complete CR LF lines of at most 512 bytes (message tags apart, and only if it negotiated them), in the order the server generated them, with nothing lost, repeated or mixed, however slowly and
  piecemeal it reads. A connection is cut off for its sendq only when its class's limit is exceeded, is then cut off with that reason, and costs the server no further output or work.""",
  ["inputs", "schedules", "fault_sequences"], "all reader behaviours, partial writes and EAGAIN patterns",
  "Test clients read everything at once; queue bookkeeping errors need partial writes at particular offsets and overflow at particular moments.",
  ["ircd/send.c", "ircd/msgq.c", "ircd/s_bsd.c", "ircd/os_generic.c", "ircd/class.c"],
  [("output queues", "ircd/msgq.c msgq_mapiov/msgq_delete"), ("delivery", "ircd/s_bsd.c deliver_it, ircd/send.c send_queued"), ("sendq limit", "ircd/send.c send_buffer/dead_link")],
  tech=T_REC, note=N_EXP)

p("C10", "A netsplit removes exactly what was behind the lost link, and tells everyone once",
  """When a server leaves (link closed, timed out or broken by a protocol error, or SQUIT by a peer, a remote user or an operator), exactly the servers and users behind it disappear: each local user sharing a channel gets one QUIT
  per lost user naming the two servers (or *.net *.split), each other neighbour gets one SQUIT and no per-user quits, and LUSERS, LINKS, WHO and WHOIS agree afterwards with what remains.
  A SQUIT with a stale link timestamp is ignored, ordinary users may not SQUIT at all and local operators only direct links.""",
  ["inputs", "histories", "fault_sequences"], "all server trees, user populations and ways of losing a link",
  "Removal walks a tree and several indexes; leaking one user or double-announcing one shows only for particular shapes and causes.",
  ["ircd/s_misc.c", "ircd/m_squit.c", "ircd/s_serv.c", "ircd/s_bsd.c", "ircd/numnicks.c", "ircd/m_lusers.c", "ircd/m_links.c"],
  [("recursive removal", "ircd/s_misc.c exit_downlinks/exit_one_client/exit_client"), ("timestamp check", "ircd/m_squit.c ms_squit"), ("user counts", "ircd/querycmds.c, include/querycmds.h")],
  tech=T_MODEL, note=N_EXP)

p("C31", "Server-to-server messages reach every server that needs them exactly once and never loop back",
  """Each protocol message originated by a user or server behind one link (or by a local client) is forwarded unchanged, exactly once, to every link that leads to someone who needs it (all links for network-wide changes, the links with
  entitled members for channel traffic, the one link towards the target for directed messages, queries and numerics) and to no other, never back to the link it came from.
  A message naming a source that is not behind the link it arrived on, or an unknown source or target, changes nothing and is forwarded to nobody.""",
  ["inputs", "histories"], "all message types, origins, targets and tree shapes",
  "Tests link one or two servers and look at users; duplicated, missing or looping server messages are visible only on third links.",
  ["ircd/send.c", "ircd/parse.c", "ircd/s_numeric.c", "ircd/s_user.c", "ircd/ircd_relay.c", "ircd/m_*.c"],
  [("broadcast", "ircd/send.c sendcmdto_serv_butone/sendcmdto_channel_butone/sendcmdto_match_butone"), ("direction check", "ircd/parse.c parse_server"), ("query routing", "ircd/s_user.c hunt_server_cmd")],
  tech=T_MODEL, note=N_EXP + " AsLL and SETTIME relays are excluded.")

p("C11", "G-lines cut off and keep out exactly the clients they match, for as long as they are in force, on every server",
  """While a G-line is in force (added or changed by a server, a remote user or a privileged local operator, active or locally overridden, not expired) exactly the connected local clients whose user name and host, address or real name it matches are disconnected,
  every matching new connection is refused with the G-line's reason, and a G-lined channel name cannot be joined by ordinary users; nobody else is affected.
  Between servers the change with the newer modification time wins: a newer change is relayed once to every other link, an older one is answered with the current record, one with the same time is ignored, and a linking server is sent every global record; local G-lines and local overrides never leave the server, and a G-line addressed to one server is forwarded to that server only.
  Operators without the privilege, with too wide a mask, matching too many users or with an expiry outside the limits are refused and nothing changes; the GLINE list shows exactly the records in existence.""",
  ["inputs", "histories"], "all sequences of G-line operations from all kinds of source over time",
  "Tests add and remove single G-lines; expiry, lifetimes, modification-time conflicts and overrides need histories over months and several links.",
  ["ircd/gline.c", "ircd/m_gline.c", "ircd/s_conf.c", "ircd/s_auth.c"],
  [("records", "ircd/gline.c gline_add/gline_modify/gline_find, struct Gline"), ("enforcement", "ircd/gline.c do_gline, gline_lookup; ircd/s_conf.c find_kill"), ("messages", "ircd/m_gline.c")],
  tech=T_MODEL, note=N_EXP + " Channel masks that are G-lined both locally and globally are excluded.")

p("C12", "An active jupe keeps its server off this server, jupes propagate and expire as specified",
  """While a jupe is active (globally active and not locally deactivated) and not expired, the named server cannot link here, a link it already has is cut with the jupe's reason, and this server does not connect to it, neither on CONNECT nor automatically; with no active jupe it can.
  A jupe or a change with a newer modification time from a server, remote user or privileged operator is told once to every other neighbour, an older one is answered with the current record, one with the same time is ignored, and a linking server is sent every global jupe; local jupes and local (de)activations stay on this server, and a jupe addressed to one server is forwarded only to it.
  Operators without the needed privilege, ordinary users and expiry times outside the limits are refused and change nothing; JUPE lists exactly the jupes in existence with their effective state.""",
  ["inputs", "histories"], "all sequences of jupe operations, link attempts and elapsed times",
  "Tests do not exercise jupe conflicts, local overrides, expiry or the effect on links.",
  ["ircd/jupe.c", "ircd/m_jupe.c", "ircd/m_server.c", "ircd/m_connect.c", "ircd/ircd.c"],
  [("records", "ircd/jupe.c, struct Jupe, JupeIsActive"), ("enforcement", "ircd/m_server.c mr_server, ircd/m_connect.c, ircd/ircd.c try_connections, ircd/jupe.c do_jupe"), ("messages", "ircd/m_jupe.c")],
  tech=T_MODEL, note=N_EXP)
p("C30", "Only authorised servers link, and name, numeric and path conflicts leave exactly one server",
  """A connection becomes a server link only if it comes to a server port (within its mask) from the address, with the name and the password of one Connect block, and speaks the protocol with a plausible link time; anything else is refused and has no effect on the network.
  A neighbour may introduce servers only as its Connect block's hub mask and hop limit permit (otherwise the introducing server is cut off), a server without HUB keeps at most one link, and no two servers ever share a name or a numeric: a numeric held by another server, or this server's own name or numeric, closes the introducing link.
  When a server appears over a second path, exactly one link is cut: a direct link replaces the old path unless it is the one to go, an introduction cuts the second youngest link of the loop (by link time, ties by name; the old path when the introducer caused a ghost under 20 seconds ago), and every other server and link stays.""",
  ["inputs", "histories"], "all sequences of link attempts, server introductions and SQUITs with any names, numerics, link times, passwords, addresses and Connect blocks",
  "No test builds loops, ghosts or colliding servers, or an attempt that differs from the configuration in one respect.",
  ["ircd/m_server.c", "ircd/s_serv.c", "ircd/s_misc.c", "ircd/s_conf.c", "ircd/numnicks.c"],
  [("admission and loops", "ircd/m_server.c check_loop_and_lh, mr_server, ms_server"), ("link set-up", "ircd/s_serv.c server_estab, exit_new_server"), ("removal", "ircd/s_misc.c exit_client")],
  tech=T_MODEL, note=N_EXP)
p("C13", "Ordinary users cannot learn what the server hides from them",
  """Two histories that differ only in hidden facts look identical to every ordinary user not entitled to them, whatever it asks and whatever it receives unasked.
  Hidden are, with host hiding and the head-in-sand features in effect: who is on a +s channel (and, in NAMES, LIST and WHOIS, a +p channel) one is not on, and a +s channel's topic; a channel's key, to non-members; the real address of a +x user with an account, also after it quits and when matching masks; +i users sharing no channel, in WHO, NAMES, LIST and WHOIS searches by mask; which server a remote user is on and which server changed a channel's modes, topic or bans or killed a user; a user's idle time (except by WHOIS through its own server); private messages, invitations and SILENCE lists of others; and operators without the display privilege.""",
  ["inputs", "histories"], "all pairs of histories differing in these facts, all queries by users without operator privileges",
  "Secrecy relates two executions; a test looks at one answer to one query.",
  ["ircd/m_who.c", "ircd/whocmds.c", "ircd/m_whois.c", "ircd/m_whowas.c", "ircd/m_names.c", "ircd/m_list.c", "ircd/m_topic.c", "ircd/m_userip.c", "ircd/m_userhost.c", "ircd/channel.c", "ircd/s_user.c", "ircd/m_kill.c"],
  [("channel visibility", "include/channel.h ShowChannel, PubChannel; whocmds.h SEE_CHANNEL, SEE_USER"), ("hidden hosts", "ircd/s_user.c hide_hostmask; HasHiddenHost"), ("head in sand", "FEAT_HIS_* in ircd/ircd_features.c")],
  tech="runtime monitoring: two-run non-interference checker over the traffic of unprivileged observers", note=N_EXP)

p("C14", "A connection is admitted exactly when the throttle, the address and class limits, the passwords and the Kill blocks allow it",
  """From an address (an IPv6 /64, a 6to4 prefix counting as its IPv4 address) that made IPCHECK_CLONE_LIMIT connection attempts with no pause longer than IPCHECK_CLONE_PERIOD between them, or from an IPv6 /48 likewise, further local connections are refused as throttled, except in the start-up grace period and for IPCheck exceptions; users of the address elsewhere on the network count, and the sign-on notice shows the counters.
  A registering client is accepted exactly when no Kill block matches its user name and host, address or real name, some Client block matches its address, host and port (the last such block in the file decides), neither that block's limit per address nor its class's maxlinks is exceeded, and the password is right; otherwise it is disconnected with the documented reason, and every departure gives its place back, also across rehashes.
  An operator block whose class is full does not oper anyone up, and a rehash disconnects exactly the clients its Kill blocks match.""",
  ["inputs", "histories"], "all sequences of connects, registrations, disconnects, remote users, time steps and configurations",
  "Counters leak or wrap only over histories of connects, refusals, remote users, rehashes and clock wraps that no test plays.",
  ["ircd/IPcheck.c", "ircd/s_conf.c", "ircd/s_auth.c", "ircd/s_bsd.c", "ircd/class.c", "ircd/m_oper.c"],
  [("address register", "ircd/IPcheck.c ip_registry_check_local/remote/disconnect"), ("Client blocks", "ircd/s_conf.c attach_iline/check_limit_and_attach/attach_conf"), ("Kill blocks", "ircd/s_conf.c find_kill, rehash")],
  tech=T_MODEL, note=N_EXP)

p("C18", "A WebSocket client gets the same IRC as a TCP client, in well-formed frames, whatever the packets and fragments",
  """However a client cuts its lines into WebSocket messages, fragments, frames and packets, and whatever control frames it puts between, it and everybody else receive what they would if it had sent the same lines over TCP; a frame that cannot be valid (unmasked, or 2^31 bytes and more) or a Close ends the session, and nothing after it is taken for commands.
  Each line to the client is one unmasked data frame, binary and unchanged or text with the bytes that are not UTF-8 replaced by U+FFFD as negotiated; Pings are answered with the same payload and idle clients are pinged every WEBSOCKET_KEEPALIVE seconds, and none of it ever breaks into another frame, also when writes are partial.
  A handshake is accepted exactly when it asks for the upgrade with a key, version 13 if it names one, an allowed Origin and at most 4096 bytes, with the correct Sec-WebSocket-Accept and the first subprotocol known to the server; a client's address is CF-Connecting-IP on Cloudflare ports, which require it, and only there.""",
  ["inputs", "schedules"], "all ways of framing and splitting any input, any pattern of partial reads and writes, and all handshake requests",
  "No test connects a WebSocket; the framing is exercised by real browsers only.",
  ["ircd/websocket.c", "ircd/s_bsd.c", "ircd/send.c", "ircd/msgq.c", "ircd/ircd_sha1.c", "ircd/ircd.c"],
  [("input", "ircd/s_bsd.c read_packet; ircd/websocket.c websocket_parse_frame"), ("output", "ircd/send.c send_buffer, send_raw_buffer; ircd/websocket.c websocket_frame_msgbuf, sanitize_utf8, websocket_write_raw"), ("handshake", "ircd/websocket.c websocket_handshake_handler, websocket_apply_client_ip; ircd/ircd_sha1.c"), ("keepalive", "ircd/ircd.c check_pings")],
  tech="runtime monitoring: metamorphic oracle (the same conversation over TCP and over WebSocket on two instances of the real server under injected short reads and writes), strict RFC 6455 decoder, reference of the handshake, AddressSanitizer and UBSan", note=N_EXP)
p("C16", "No client gets more carried out than flood control allows, nothing it sent is lost or reordered, and too much ends it",
  """Commands of a client are carried out one at a time in the order sent, whole, however they were cut on arrival. Each costs two seconds and one more per 120 characters of penalty; a command is carried out while the client's penalty lies less than ten seconds ahead of the clock, and otherwise waits until it does, at most the two seconds between two looks longer, without being lost; a QUIT waits its turn as well.
  When more than the class's maxflood (CLIENT_FLOOD without one) waits, the connection is closed with "Excess Flood" and what was left is not carried out; with no more than that it never is. Only a class whose maxflood is above CLIENT_FLOOD is exempt from the delay.
  What a rehash, a change of the features or the end of operator status changes in these limits applies from the next input on; unregistered connections are held to the same limits.""",
  ["inputs", "schedules"], "all sequences of commands of any length, cut anywhere, at any spacing, for every class limit, with changes of the limits in between",
  "Tests of rate limits need many timings; whether the n-th command waits depends on everything before it.",
  ["ircd/s_bsd.c", "ircd/packet.c", "ircd/parse.c", "ircd/class.c", "ircd/dbuf.c", "ircd/client.c"],
  [("input", "ircd/s_bsd.c read_packet, update_write"), ("execution", "ircd/packet.c client_dopacket; ircd/s_bsd.c client_timer_callback"), ("penalty", "ircd/parse.c parse_client"), ("limits", "ircd/class.c get_client_class_maxflood, get_recvq")],
  tech=T_MODEL, note=N_EXP)
p("C24", "Dead connections are noticed and ended in time, live ones never are",
  """A user who sends nothing for the ping frequency of its class (PINGFREQUENCY without one) is sent one PING at that time, never earlier, and if nothing at all arrives for the same time again it is disconnected with "Ping timeout", which its channels see; anything received, even half a line, counts as a sign of life and starts over.
  A server link is ended when it has been silent for twice its ping frequency, and its users quit for everybody. A connection that has not registered CONNECTTIMEOUT seconds after it was made is closed whatever it sends (users, WebSockets without handshake), as are outgoing connections without answer; one that registers in time is not.
  No connection that keeps within these times is closed, also not when the server itself was late in looking, and configuration reloads and other connections coming and going change nothing.""",
  ["schedules", "histories"], "all patterns of silence and activity of users, servers, unregistered and outgoing connections, all ping frequencies",
  "Timeouts of minutes are never waited for in tests, and the order of the table scan and its rescheduling depends on who else is connected.",
  ["ircd/ircd.c", "ircd/s_bsd.c", "ircd/m_pong.c", "ircd/m_ping.c", "ircd/s_auth.c", "ircd/class.c", "ircd/client.c", "ircd/ircd_events.c"],
  [("scan", "ircd/ircd.c check_pings"), ("signs of life", "ircd/s_bsd.c read_packet; ircd/m_pong.c"), ("unregistered", "ircd/s_auth.c auth_ping_timeout"), ("frequencies", "ircd/client.c client_get_ping; ircd/class.c get_conf_ping")],
  tech=T_MODEL, note=N_EXP + " The first look at a new connection may be up to PINGFREQUENCY late, which is allowed for.")
p("C25", "WHO, LIST and WHOWAS answer with exactly what matches and may be seen, each once and truly",
  """LIST shows each channel that meets all conditions given (numbers of users, age of the channel and of its topic, one name pattern or its negation, in any combination) and that the asker may see exactly once, however slowly it is read and whatever appears or vanishes meanwhile, with its true number of users and topic; LIST with names shows those channels; hidden channels and modes only to operators who ask for them.
  WHO shows each user named, each member of a channel named, or each user of whom one of the selected fields matches the mask, if the asker may see it (itself, on a common channel, not invisible, or named by nick), once, with the fields asked for and their true values, up to the limit for the number of fields, past which 416 is sent; operators have no limit.
  WHOWAS shows every past bearer of a nick that the history of NICKNAMEHISTORYLENGTH entries still holds (after nick changes, quits, kills and splits), newest first, up to the number asked for, with the user name, shown host, real name, server and away message it had. Every answer is ended once by its end reply.""",
  ["inputs", "histories"], "all populations of users and channels, all queries by ordinary users and operators",
  "Tests ask a few queries of two or three users; combinations of selectors, fields, conditions, limits and pauses are not sampled.",
  ["ircd/m_who.c", "ircd/whocmds.c", "ircd/m_list.c", "ircd/hash.c", "ircd/m_whowas.c", "ircd/whowas.c"],
  [("WHO", "ircd/m_who.c m_who; ircd/whocmds.c do_who"), ("LIST", "ircd/m_list.c m_list, param_parse; ircd/hash.c list_next_channels"), ("WHOWAS", "ircd/m_whowas.c m_whowas; ircd/whowas.c add_history, whowas_alloc, whowas_realloc")],
  tech=T_MODEL, note=N_EXP)
p("C21", "A connection becomes a user exactly when its registration is complete, once, and as what was verified",
  """A connection becomes a user only when it has given an acceptable nick and user name, returned the PING cookie it was sent, ended any CAP negotiation and passed its Kill blocks, user-name rules and password, and its ident lookup has finished or timed out; it is then welcomed and introduced to other servers exactly once, under its last nick and with the user name and real name that were checked (the ident server's user name, or its own marked "~" where ident is asked for and failed) and only modes that USER may set.
  Until then no user or server sees it, LUSERS counts it as unknown, commands for users are answered 451 without effect and server commands are ignored; a nick in use or jupitered is refused with 433, an invalid one with 432, and a nick held only by an unregistered connection displaces that connection.
  A connection that does not complete registration is closed after CONNECTTIMEOUT, at most one PINGFREQUENCY late, and no other; afterwards USER and PASS are answered 462.""",
  ["inputs", "schedules"], "all sequences of registration commands over several connections, ident answers (valid, invalid, late, absent) and elapsed times",
  "Tests register well-behaved clients; order, repetition, displaced nicks and late ident answers are left out.",
  ["ircd/s_auth.c", "ircd/m_nick.c", "ircd/m_user.c", "ircd/m_pass.c", "ircd/m_pong.c", "ircd/m_cap.c", "ircd/s_user.c", "ircd/ircd.c"],
  [("state machine", "ircd/s_auth.c check_auth_finished, auth_set_user, auth_set_nick, auth_set_pong, auth_cap_start/done"), ("user names", "ircd/s_auth.c auth_set_username, check_ident_reply"), ("introduction", "ircd/s_user.c register_user"), ("timeout", "ircd/ircd.c check_pings")],
  tech=T_MODEL, note=N_EXP)

p("C22", "Operator status, privileges and user modes are had exactly by those the configuration, OPER and Uworld give them to",
  """A local user becomes an operator only by OPER with the name and password of the Operator block that applies to its user name and host (and, where the block has one, its certificate fingerprint) in a class with room, or by OPMODE +o from a Uworld server with oper rights; it then has exactly the privileges given by the block, its class or the defaults for global and local operators, which PRIVS shows, and loses all of them (and the operators' server notices) with -o or -O.
  By MODE nobody makes himself an operator, service, account holder or TLS user; all other user modes and the server notice mask change exactly as asked within the limits for operators and users, show in MODE, WHOIS and LUSERS, and are told once to every other server (operator status only of operators that propagate).
  KILL (also of a recent nick), OPMODE, CLEARMODE, SET, REHASH, DIE, RESTART, WALLOPS, overriding joins, modes and kicks on local channels and exceeding the channel limit are permitted exactly to operators with the privilege concerned and have their effect everywhere exactly once; others get 481 or the usual refusal and nothing changes; services and servers cannot be killed.""",
  ["inputs", "histories"], "all sequences of OPER, MODE, OPMODE and privileged commands under all Operator and Class blocks",
  "Privileges combine block, class and default settings with each way of gaining and losing operator status; tests try a few.",
  ["ircd/m_oper.c", "ircd/m_opmode.c", "ircd/client.c", "ircd/s_user.c", "ircd/s_conf.c", "ircd/m_kill.c", "ircd/m_clearmode.c", "ircd/m_set.c", "ircd/m_join.c", "ircd/ircd_parser.y"],
  [("privileges", "ircd/client.c client_set_privs; ircd/ircd_parser.y operblock"), ("status", "ircd/m_oper.c m_oper, ircd/m_opmode.c make_oper/de_oper, ircd/s_user.c set_user_mode"), ("use", "ircd/m_kill.c, m_opmode.c, m_clearmode.c, m_join.c, m_mode.c")],
  tech=T_MODEL, note=N_EXP + " TLS is not built, so a block with a fingerprint can only be refused.")

p("C32", "A login by SASL or by the services gives exactly the account granted, and the network configuration behind it is the newest",
  """The sasl capability can be requested, and is listed (to CAP 302 clients with the mechanisms), exactly while the server the configuration names is linked and mechanisms are configured; users with cap-notify hear each change once as CAP NEW or DEL, and DEL takes the capability away.
  AUTHENTICATE is passed to the login service, under one unused session identifier per exchange, exactly for clients with the capability that have not logged in, and answered 904 to 908 otherwise; the service's replies reach only the client whose session they name, a session ends with success, failure, abort, its timeout or the client, once, and replies for ended or unknown sessions have no effect.
  An unregistered client that succeeded is introduced with exactly the account, id, flags and hidden host granted, others without; afterwards only a Uworld server gives a user an account, which never changes and is told once to every other server; of configuration records (CF) for a name the newest wins whatever the order, is told once to every other server and burst to new ones, and older ones have no effect.""",
  ["inputs", "histories"], "all sequences of AUTHENTICATE, CAP and registration commands, service replies (any order, late, repeated), timeouts, service splits and CF records",
  "Tests have no login service; stale replies, timeouts and splits in mid-exchange are never played.",
  ["ircd/m_sasl.c", "ircd/sasl.c", "ircd/m_xreply.c", "ircd/m_cap.c", "ircd/m_account.c", "ircd/m_config.c", "ircd/ircd_netconf.c", "ircd/s_auth.c"],
  [("sessions", "ircd/sasl.c, ircd/m_sasl.c m_sasl"), ("account", "ircd/s_auth.c auth_set_account, ircd/m_account.c ms_account"), ("configuration", "ircd/ircd_netconf.c config_set")],
  tech=T_MODEL, note=N_EXP + " TLS is not built, so EXTERNAL is exercised without certificates.")

p("C17", "Masks match exactly what they say, in every form they are kept in",
  """A wildcard mask matches a name exactly when * stands for any characters, ? for one, a backslash takes the next character literally and letters compare by the IRC case mapping; collapsing a mask, compiling it or printing it back never changes what it matches.
  A mask said to cover another matches everything the other matches, covers itself, and covers a plain name exactly when it matches it.
  Every valid IPv4, IPv6 or wildcard address notation with an optional prefix length is read as the address and length it denotes, other lengths are refused, and two addresses agree under a prefix length exactly when those leading bits do; no input makes these functions touch memory outside their arguments.""",
  ["inputs"], "all masks, names, addresses and prefix lengths",
  "The tests try some dozen pairs; backtracking, escapes and abbreviated notations combine without bound.",
  ["ircd/match.c", "ircd/ircd_string.c"],
  [("masks", "ircd/match.c match, mmatch, collapse, matchcomp, matchexec, matchdecomp"), ("addresses", "ircd/ircd_string.c ipmask_parse, ircd_aton_ip4; ircd/match.c ipmask_check")],
  tech="runtime monitoring: the real functions under ASan/UBSan with a definition-level oracle over generated inputs", note="Generated inputs, not all; the driver links the server's own objects.")
p("C27", "Encodings, name lists, formatted output and byte queues are exact",
  """An address or number encoded for another server decodes to the same one and has the documented form, and every address is printed in a standard form that reads back as the same address and never starts with a colon.
  Name comparison, bounded copying, splitting and de-duplicating of lists and formatted output give what their definitions say for every input and buffer size, within the buffer.
  Bytes leave an input buffer in the order they came, lines of at most 512 bytes whole and without line ends; messages leave an output queue whole, unchanged and in order, urgent ones before others that have not begun, whatever part of them each write takes, and the counted lengths always agree.""",
  ["inputs", "schedules"], "all addresses, strings, formats and buffer sizes; all interleavings of queueing and partial removal",
  "Tests cover a few encodings and no partial write.",
  ["ircd/numnicks.c", "ircd/ircd_string.c", "ircd/ircd_snprintf.c", "ircd/dbuf.c", "ircd/msgq.c"],
  [("encodings", "ircd/numnicks.c iptobase64, base64toip, inttobase64, base64toint; ircd/ircd_string.c ircd_ntoa_r"), ("strings", "ircd/ircd_string.c ircd_strcmp, canonize, unique_name_vector; ircd/ircd_snprintf.c"), ("queues", "ircd/dbuf.c dbuf_getmsg, dbuf_get, dbuf_put; ircd/msgq.c msgq_mapiov, msgq_delete")],
  tech="runtime monitoring: the real functions under ASan/UBSan with definition-level oracles and byte-exact queue models", note="Generated inputs, not all; the driver links the server's own objects.")

p("C19", "Clients get message tags and the special forms of messages exactly for the capabilities they negotiated",
  """CAP REQ is acknowledged with exactly the changes asked for, which then hold, or refused as a whole (NAK) with none; LS shows exactly the capabilities that can be had, LIST those held, and a client that began negotiating is registered only after CAP END.
  A client receives extended JOINs, ACCOUNT, AWAY, CHGHOST, INVITE notices, echoes of its own messages, TAGMSG and full names in NAMES exactly when it has the capability concerned, and the ordinary form or nothing otherwise, also about users of other servers.
  Every line carries the time to clients with server-time or message-tags, the sender's account to those with account-tag or message-tags, and the sender's client-only tags that CLIENTTAGDENY permits, with their values unchanged, to those with message-tags, and no other tag to anyone; tags a client sends without + never count, other servers are sent only the time (as configured), and lines with too long tags or bodies are refused with 417 without effect.""",
  ["inputs", "histories"], "all sequences of CAP commands, tagged messages and events among clients with any capabilities",
  "Forms and tags are chosen per recipient with prefix caching; tests look at one or two recipients with few capability sets.",
  ["ircd/m_cap.c", "ircd/msg_tag.c", "ircd/send.c", "ircd/parse.c", "ircd/m_tagmsg.c", "ircd/ircd_relay.c", "ircd/m_away.c", "ircd/m_invite.c", "ircd/m_names.c", "ircd/s_user.c", "ircd/s_auth.c"],
  [("negotiation", "ircd/m_cap.c cap_req, cap_ls, send_caplist; ircd/s_auth.c auth_cap_start"), ("tags", "ircd/msg_tag.c msg_tag_format, msg_tag_filter_client; ircd/send.c send_buffer"), ("forms", "ircd/send.c sendjointo_channel_butserv; ircd/s_user.c hide_hostmask; ircd/ircd_relay.c")],
  tech=T_MODEL, note=N_EXP + " Lines with one key twice or more than 60 tags are not judged.")
