"""The properties, and how each is decided.  gen.py turns this into
properties.jsonl and MANIFEST.json."""

PROPS = []

TYPESTATE = "path-sensitive interprocedural typestate analysis over SSA"
TRUST = ("Decided on every path of the type-checked SSA of the current sources; trusts go/packages and go/ssa, "
         "the models of the library calls named in DESIGN.md, and that interface and function-value calls outside "
         "the analysed packages do not call back into them. ")


def prop(id, title, statement, over, qtext, tests, files, mech, technique=None, note="", na=None, state=None):
    p = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=tests,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if na:
        p["na"] = na
    else:
        p["technique"] = technique or TYPESTATE
        p["note"] = TRUST + note
    PROPS.append(p)


prop("C01", "Nothing a peer sends crashes the client or the server",
     "Whatever bytes a peer sends, and whatever it announces, neither the server nor the client panics or ends on them: every "
     "index and slice bound a peer can influence is found to be in range before it is used, lengths that the library requires "
     "are checked, tags are inside the tag window, what a message names in a table or what a failed call did not return is not "
     "dereferenced, sizes a peer announces are not negative when something is made of that size, no type is asserted of what a "
     "peer sent without looking, and nothing a peer can make happen calls os.Exit or panic.",
     ["inputs", "histories"], "every message, handshake, push payload, group list, ciphertext and announced setting, of any length and content",
     "Malformed input is an open set and each handler has its own; tests send well formed messages and never start a server.",
     ["zkclient/push.go", "zkclient/zkclient.go", "zkclient/msg.go", "zkserver/zkserver.go", "zkserver/rendezvous.go",
      "ratchet/ratchet.go", "blobshare/blobshare.go", "session/kx.go", "zkidentity/zkidentity.go"],
     [("handleRPC/welcomePhase", "zkclient/zkclient.go"), ("handlePush and its handlers", "zkclient/push.go"),
      ("handleSession", "zkserver/zkserver.go"), ("Decrypt/trySavedKeys", "ratchet/ratchet.go"),
      ("UnpackNonce/UnpackSaltNonce", "blobshare/blobshare.go")],
     technique="interprocedural taint plus a difference-bounds prover over SSA (dominating conditions, helpers' verdicts, all callers, loop induction), and nil-flow with error correlation",
     note="Memory exhaustion is C29, deadlock C10 and C11. What the user types and what is on the own disk is not a peer's. "
          "The tag stack's own bounds are C33. Panics inside the Go library on valid arguments are not considered.")

prop("C02", "Only a proven, enabled account is ever served a session",
     "The server takes an account online, sends the welcome or serves any session message only after the key exchange "
     "with that peer succeeded and the identity it proved was found to have an account that is enabled and not disabled. "
     "An account disabled while its session is being set up is not served, and every operation of a session acts on the "
     "identity its own key exchange proved.",
     ["inputs", "histories", "schedules"], "every connection, peer behaviour, account state and disable racing a login",
     "No test runs the server's accept path; the tests of the account package never open a session.",
     ["zkserver/zkserver.go", "zkserver/account/account.go"],
     [("preSession/handleSession", "zkserver/zkserver.go"), ("handleSession", "zkserver/zkserver.go"),
      ("Disabled/Enabled/Online", "zkserver/account/account.go")],
     note="Does not decide what the file system answers; the account directory's state is an input.")

prop("C03", "A delivered message names the sender that was authenticated",
     "A message the server stores for another account carries as sender exactly the identity proved by the key exchange of "
     "the session it came from, the recipient the sender named and the payload it sent, unchanged. A client cannot make the server mark a "
     "delivered message as server-originated cleartext, and what is pushed to the recipient is the stored message with its stored sender, cleartext mark and time.",
     ["inputs", "histories"], "every cache, proxy and push message of every session",
     "Tests deliver with a sender of their own choosing; nothing ties it to a session.",
     ["zkserver/cache.go", "zkserver/zkserver.go", "zkserver/account/account.go"],
     [("handleCache/handleProxy", "zkserver/cache.go"), ("Deliver/deliver", "zkserver/account/account.go")],
     technique="provenance (taint) typestate over SSA", note="Values are followed by provenance labels, not by content.")

prop("C04", "The server acknowledges a message only after it was stored whole",
     "The server answers a client's request to store a message with success only when the message was written completely, "
     "with every write error checked, to the recipient's spool; on any failure the answer carries an error. A message "
     "becomes visible in the spool only complete, under a name no existing message has.",
     ["inputs", "fault_sequences", "crash_points"], "every write, disk error and crash point during delivery",
     "Tests deliver to a healthy disk and never fail a write.",
     ["zkserver/cache.go", "zkserver/account/account.go"],
     [("handleCache", "zkserver/cache.go"), ("Deliver", "zkserver/account/account.go")],
     note="Persistence of a renamed file is the file system's; fsync ordering beyond the file itself is not decided.")

prop("C05", "A stored message is removed only after the recipient acknowledged it",
     "The server removes a spooled message only when the client it was pushed to acknowledged the tag that message is in flight under, without an error, and "
     "removes exactly that message. Every pushed message is recorded under its tag before it is sent, an acknowledgement of a tag that is not in flight "
     "ends the session, and losing a connection removes nothing.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every sequence of pushes, acknowledgements and disconnects",
     "Tests delete a message by name; no test drives the acknowledgement path.",
     ["zkserver/zkserver.go", "zkserver/account/account.go"],
     [("handleSession acknowledge case, sessionNtfn", "zkserver/zkserver.go"), ("Delete", "zkserver/account/account.go")],
     note="Does not decide that a message is eventually delivered.")

prop("C06", "An account is created only as the configured policy allows",
     "An account is created on the client's request only when the policy permits it: never under \"no\", under \"token\" only with a token that was "
     "found, unexpired and consumed, and freely under \"yes\". The identity created must verify (its own signature and key) and must not be disabled, "
     "and the client is told of success exactly when the account exists and the reason otherwise.",
     ["inputs", "configurations", "fault_sequences"], "every request, policy, token state and disk error",
     "No test creates an account through the server; the account tests call the store directly.",
     ["zkserver/account.go", "zkserver/zkserver.go", "zkserver/account/account.go", "zkserver/settings/settings.go"],
     [("handleAccountCreate", "zkserver/account.go"), ("Create", "zkserver/account/account.go")],
     note="Signature strength is trusted.")

prop("C07", "A one-time token is accepted at most once",
     "An account-creation token is accepted at most once, however many clients present it and whenever a failure happens: it is removed from the "
     "pending tokens, and the removal saved, in one critical section with the look-up, before it is accepted. "
     "A token that is unknown, expired or whose removal could not be saved is refused.",
     ["inputs", "schedules", "fault_sequences"], "every interleaving of presentations, and every storage failure",
     "No test presents a token, let alone two at once.",
     ["zkserver/zkserver.go", "zkserver/pending.go", "inidb/inidb.go"],
     [("validToken", "zkserver/pending.go"), ("inidb", "inidb/inidb.go")],
     note="The command line tool that adds tokens is a separate process; its races with the server are a recorded design limit.")

prop("C08", "A rendezvous blob is stored before its PIN and returned only for it",
     "The server hands out a rendezvous PIN only after the blob was saved under it, never hands out a PIN that is already in use, and "
     "on any storage failure replies with an error. A pull returns exactly the blob stored under the PIN that was asked for, or an error.",
     ["inputs", "schedules", "fault_sequences"], "every rendezvous and pull, their interleavings and every storage failure",
     "No test exercises a rendezvous on the server.",
     ["zkserver/rendezvous.go", "inidb/inidb.go"],
     [("handleRendezvous/handleRendezvousPull", "zkserver/rendezvous.go")],
     note="Does not decide the expiry of blobs (see DESIGN.md).")

prop("C27", "Every request is answered exactly once with its own tag",
     "The server answers each request of a session exactly once, with the reply of the matching kind and payload, under the tag the request carried, "
     "or ends the session with an error; it never answers twice or under another tag. An acknowledgement is not itself answered.",
     ["inputs", "histories", "fault_sequences"], "every request kind, payload and internal failure",
     "No test runs a session against the server's dispatch.",
     ["zkserver/zkserver.go", "zkserver/cache.go", "rpc/rpc.go"],
     [("handleSession dispatch", "zkserver/zkserver.go"), ("handlers", "zkserver/cache.go")],
     note="Replies are counted when queued to the session writer.")

prop("C15", "A session exists only after both sides proved their identities",
     "A key exchange succeeds only when every step of it succeeded and every proof the peer owes was received and verified in constant time. Client and server run the same exchange: "
     "each opens, verifies and derives exactly what the other sealed, proved and derived, the proofs cover both ephemeral keys and the identities, the session keys depend on both long-term and both ephemeral keys, and one side's sending key is the other's receiving key. "
     "The client uses a session only after its exchange succeeded, and its ephemeral private key is erased when the exchange ends.",
     ["inputs", "histories", "fault_sequences"], "every peer message, failure and order of steps in the exchange",
     "The tests run one honest exchange over a healthy connection; no step fails and no peer lies.",
     ["session/kx.go", "zkclient/zkclient.go"],
     [("Initiate/Respond, recvProof, deriveKeys", "session/kx.go"), ("sessionPhase/welcomePhase", "zkclient/zkclient.go")],
     technique="extraction of each role's message sequence from SSA paths and a duality check of the two; typestate",
     note="The cryptographic strength of the primitives is assumed.")

prop("C16", "No session key and nonce pair is used twice and both ends stay in step",
     "Each message of a session is sealed and opened with its direction's own counter, which is advanced exactly once per message and never reset, over enough bytes not to repeat. "
     "A message that is refused before being sent does not use up a counter value, and at most one goroutine at a time writes a session. No key and counter value ever protect two messages.",
     ["histories", "schedules", "inputs"], "every sequence and interleaving of reads and writes, of any length",
     "Tests exchange a handful of messages in lock step; counter reuse or overflow of a byte is invisible to them.",
     ["session/kx.go", "zkclient/zkclient.go", "zkclient/msg.go", "zkserver/zkserver.go"],
     [("readWithKey/writeWithKey/incSeq", "session/kx.go"), ("sessionWriter", "zkserver/zkserver.go"), ("scheduler", "zkclient/msg.go")],
     note="The value arithmetic of the counter is checked only for its width and that each byte position is written.")

prop("C12", "A ratchet message is accepted once and a rejected one changes nothing",
     "Decrypting a message either succeeds, and then the key it was opened with is used up and cannot open another message, or fails and leaves the ratchet exactly as it was: "
     "no header, replayed, forged or truncated message moves a counter, replaces a chain or deletes a saved key. The keys of messages skipped over are kept until their message arrives.",
     ["inputs", "histories"], "every message, in any order, replayed or forged, against every ratchet state",
     "Tests replay and drop a few messages; they cannot enumerate states and failing steps.",
     ["ratchet/ratchet.go"], [("Decrypt/trySavedKeys/saveKeys/mergeSavedKeys", "ratchet/ratchet.go")],
     note="Decides which state is written on which path, not the values of the derived keys.")

prop("C13", "The work a ratchet message can demand is bounded",
     "The number of message keys a received ratchet header makes the receiver derive and store is limited by a constant, and only a header that authenticated is acted on.",
     ["inputs"], "every header, including forged counts up to the full integer range",
     "A test can send one large count; the bound must hold on every path that loops over a count from the wire.",
     ["ratchet/ratchet.go"], [("saveKeys", "ratchet/ratchet.go")],
     note="The bound is per message; the total number of saved keys over many authenticated messages is not bounded by the code.")

prop("C14", "Saving a ratchet and loading it gives the same ratchet",
     "Every field of a ratchet that a later message depends on is written by Marshal and read back by Unmarshal into the same field, half-finished key exchanges and saved keys included; "
     "a stored key of the wrong length is an error, not a silently different ratchet.",
     ["inputs", "histories"], "every reachable ratchet state, at every point of a conversation",
     "Tests save and load a fully established ratchet; a half-exchanged one and each optional field go unsampled.",
     ["ratchet/ratchet.go", "ratchet/disk/disk.go"], [("Marshal/Unmarshal", "ratchet/ratchet.go"), ("disk state", "ratchet/disk/disk.go")],
     technique="extraction of the field-to-field maps of both directions from SSA paths and a check that they are inverse",
     note="The XDR library is trusted to encode what it is given.")

prop("C30", "What did not authenticate is never used",
     "When an authenticated decryption fails (session record, ratchet message, encrypted blob, key encapsulation), its result is not decoded, stored, sent, returned with success or used in any other way; "
     "a function of the session, ratchet and blob packages that opens something reports success only if its decryption succeeded.",
     ["inputs", "fault_sequences"], "every forged or corrupted ciphertext at every place one is opened",
     "Tests corrupt one message at one layer; each caller's handling of failure is a separate path.",
     ["session/kx.go", "ratchet/ratchet.go", "blobshare/blobshare.go", "zkclient/push.go", "zkclient/zkclient.go", "zkserver/zkserver.go"],
     [("Read/readWithKey", "session/kx.go"), ("Decrypt", "ratchet/ratchet.go, blobshare/blobshare.go"), ("handlePush, step2IDKX", "zkclient/push.go")],
     note="The strength of secretbox and sntrup4591761 is trusted.")

prop("C31", "An identity that verifies is the one its owner signed",
     "Verify accepts an identity only if its Identity is the hash of its signing-independent public key, its digest is recomputed over every signed field and compared, and its signature over that digest verifies under its own signing key; "
     "signing covers the same fields in the same order. A message verifies only under the identity's signing key, and an identity decoded from bytes is handed out only after it verified.",
     ["inputs"], "every identity, field value and signature",
     "Tests flip one field; a field missing from the digest, or a comparison missing on one path, survives them.",
     ["zkidentity/zkidentity.go"], [("Verify/RecalculateDigest/VerifyMessage/UnmarshalPublicIdentity", "zkidentity/zkidentity.go")],
     technique="extraction of the hashed, compared and signed terms from SSA paths",
     note="Ed25519 and SHA-256 are trusted. Known finding: Name and Nick are hashed without a separator.")

LOCKS = "compositional lock-set, lock-balance and lock-order analysis over the call graph (summaries of every function, path-sensitive)"
prop("C09", "A session that ends is undone completely and leaves nobody waiting",
     "However a session ends, the server takes its account offline, ends its goroutines, takes it off the list unless another session "
     "replaced it there, and closes the connection; a client that is gone is noticed within a limited time, and a login that "
     "replaces a session closes it. The client marks itself offline, ends and waits for its heartbeat, closes the connection and tries to connect "
     "again; it is never marked online without something reading from the server. Every connection that is opened or "
     "accepted is closed on every path that does not go on to use it, and no goroutine of a session waits for something that "
     "only a part that is already gone could give it.",
     ["histories", "schedules", "fault_sequences"], "every way a login, a session, an account creation or a reconnect can end or fail, at every point",
     "The existing tests start no session; an ending that forgets one of these shows only as an account that can not log in again or a goroutine that never ends.",
     ["zkserver/zkserver.go", "zkserver/account/account.go", "tagstack/tagstack.go", "zkclient/zkclient.go", "zkclient/welcome.go", "zkclient/acceptserverfingerprint.go"],
     [("handleSession/sessionWriter/sessionNtfn/preSession/listen", "zkserver/zkserver.go"), ("Online/Offline/offline/send", "zkserver/account/account.go"),
      ("PopQuit", "tagstack/tagstack.go"), ("handleRPC/goOnline/goOnlineRetry/finalizeAccountCreation", "zkclient/zkclient.go"),
      ("KeyHandler", "zkclient/acceptserverfingerprint.go")],
     technique="path-sensitive interprocedural typestate of sessions, accounts, connections, wait groups and timers, and a wait-for analysis of channel operations over the goroutine graph",
     note="Lock cycles are C10. How long the operating system takes to fail a read or write on a closed connection is trusted. A panic ends the process (C01).")

prop("C10", "No goroutine holds, waits for or orders locks so that another blocks for ever",
     "No goroutine of server or client takes a lock it already holds, releases one it does not hold, or ends or returns to its loop still holding one, on any path including every error path. "
     "The locks are taken in an order without cycles, nobody waits for a channel with a lock held that the goroutine serving the channel needs, and the server never waits for a client's connection while holding a lock that other clients' sessions need.",
     ["schedules", "fault_sequences"], "every interleaving of goroutines and every error path",
     "Tests use the packages from one goroutine over healthy files; a deadlock needs the interleaving or the failing call.",
     ["zkserver/zkserver.go", "zkserver/account/account.go", "zkserver/rendezvous.go", "zkclient/zkclient.go", "zkclient/msg.go", "inidb/inidb.go", "tagstack/tagstack.go"],
     [("sessions, sessionContext", "zkserver/zkserver.go"), ("Account.Mutex", "zkserver/account/account.go"), ("RWMutex, ratchetMtx, scheduler", "zkclient/zkclient.go, zkclient/msg.go")],
     technique=LOCKS, note="Locks are identified by the field they are, not by object; waiting with several select cases is taken to end.")

prop("C11", "State shared by goroutines is only touched under its lock",
     "The session table, the online table and its sets of messages already handed out, the messages in flight, tag stacks, databases, address book, the session's ephemeral keys on the server, and the client's conversations, groups, connection state, "
     "pending searches and ticker are read and written only with their lock held, and written only with it held for writing, by whichever function and goroutine reaches them.",
     ["schedules"], "every access on every call chain, under every interleaving",
     "The race detector sees only the accesses a test happens to overlap; no test runs server or client goroutines together.",
     ["zkserver/zkserver.go", "zkserver/account/account.go", "zkclient/zkclient.go", "zkclient/groupchat.go", "zkclient/mainwindow.go", "inidb/inidb.go", "tagstack/tagstack.go", "session/kx.go"],
     [("sessions, tagMessage", "zkserver/zkserver.go"), ("online, processed", "zkserver/account/account.go"), ("conversation, groups, kx, online", "zkclient/zkclient.go")],
     technique="compositional guarded-by analysis (lock sets propagated over the call graph, path-sensitive)",
     note="The table of guarded fields is fixed; the client's receiving goroutine may read the session it alone clears. Fields the client sets once per connection (tag stack, sizes) are not covered.")

prop("C29", "Nothing a peer sends makes a process allocate without limit",
     "Everything decoded from the network, directly or out of bytes that came from it, is decoded under a size limit that is not zero; a session's message limit is set before the session starts and a record is compared against it, encryption overhead included, before it is sent. "
     "No allocation, announced by the server or named in a message, has a size that comes from outside without a constant limit on both sides.",
     ["inputs"], "every byte stream and every announced number",
     "Tests decode well-formed messages; an unlimited decode works on all of them.",
     ["session/kx.go", "zkserver/zkserver.go", "zkclient/zkclient.go", "zkclient/push.go", "rpc/rpc.go"],
     [("MaxMessageSize", "session/kx.go"), ("unmarshal", "zkserver/zkserver.go, zkclient/push.go"), ("welcomePhase", "zkclient/zkclient.go")],
     technique="interprocedural backward origin (data-flow) analysis and path-sensitive range facts over SSA",
     note="The limits themselves are the program's constants and settings; the decoder is trusted to keep the limit it is given. The server's own settings count as limits.")

prop("C20", "The client's ratchet on disk never falls behind what it sent or accepted",
     "The client saves a ratchet before anything encrypted with it is handed to the network and before a decrypted message is acted on, under the ratchet lock from loading to saving; when saving fails the message is not sent or not used. "
     "The keys of a key exchange are on disk before the exchange message is sent, and a ratchet replaces another only after the exchange that made it completed.",
     ["crash_points", "schedules"], "every point at which the client may stop, every order of sending and receiving",
     "Tests keep ratchets in memory; no test stops the client between two steps.",
     ["zkclient/msg.go", "zkclient/push.go", "zkclient/identity.go", "zkclient/kxacceptwindow.go"],
     [("cacheCRPC", "zkclient/msg.go"), ("handlePush, step1IDKX", "zkclient/push.go"), ("loadRatchet/updateRatchet", "zkclient/identity.go")],
     note="One client process per directory is assumed.")

prop("C25", "State on disk is replaced whole or not at all, and success means it was saved",
     "A ratchet, an identity, a group, a stored message or a database is written to another file, synced and closed without error, and only then renamed over the old one; no state file that exists is truncated. "
     "A record that was set or deleted marks the database changed until its file is in place, the change is saved before the operation ends, and an operation that could not save does not report success.",
     ["crash_points", "inputs"], "every crash point, every failing write",
     "Tests neither crash between writes nor fail a write.",
     ["inidb/inidb.go", "zkserver/account/account.go", "zkclient/identity.go", "zkclient/groupchat.go", "zkclient/groupinvites.go", "zkclient/blobkeys.go", "zkclient/zkclient.go"],
     [("Save", "inidb/inidb.go"), ("Deliver", "zkserver/account/account.go"), ("writeFile, updateRatchet", "zkclient/identity.go")],
     note="Rename is taken as atomic. Logs, the history file and the spool of an unfinished transfer may be partial. The directory is not synced after a rename.")

prop("C21", "Only a group chat's administrator changes the group",
     "The first member of a group chat is its administrator. A client replaces or removes its list of a group for a message only when the sender, as authenticated by the ratchet, is the administrator of the group under that name, and installs a list that came with the message only when the sender is that list's first member too. "
     "The administrator's client adds a member only for a sender whose own invitation carried the token presented, and the used invitation is gone from disk; it removes, for a part, only the sender. "
     "The user's own commands create a group only under an unused name and invite, kick or kill only as its administrator; an invitation is on disk before it is sent. Check and change happen in one hold of the lock.",
     ["inputs", "programs", "schedules"], "every message from every peer, in every state of the groups",
     "Tests cover no group chat handler; each is a check in front of an assignment that a test with honest members never exercises.",
     ["zkclient/push.go", "zkclient/groupchat.go", "zkclient/groupinvites.go", "zkclient/zkclient.go"],
     [("handleGroupJoin/Part/Kick/Kill", "zkclient/push.go"), ("_updateGroupList", "zkclient/zkclient.go"), ("gcKick, gcKill, gcInvite", "zkclient/groupchat.go"), ("delInvite", "zkclient/groupinvites.go")],
     note="That a generation moves forward is only warned about by the program and not demanded. An invitation's expiry is not enforced by the program.")

prop("C22", "Group messages come from members and go to every member",
     "A group message is shown only when its sender, as authenticated by the ratchet, is a member of the group it names. A message to a group is sent to each of its members but oneself, and lists and kills to every member but the administrator; "
     "what is sent about a group goes only to members of that group.",
     ["inputs", "programs"], "every message, every group",
     "No test has a group with members.",
     ["zkclient/push.go", "zkclient/groupchat.go"],
     [("handleGroupMessage", "zkclient/push.go"), ("gcMessage, gcKick, gcKill", "zkclient/groupchat.go")],
     technique="path-sensitive typestate analysis over SSA, and analysis of the loops that send",
     note="Sending means handing to the client's outgoing queue.")

prop("C18", "No identity from the network is trusted before it was verified",
     "An identity decoded from the network enters the address book, the disk, an account, a ratchet or a window's offer only after its signature and digest verified, and unchanged since. "
     "An identity that came in a peer's message must also be the sender the server named; an identity the server found must have been asked for under that nick and carry it; "
     "one offered to the user is used only after the answer yes.",
     ["inputs", "programs"], "every message and reply, every path on which an identity is kept",
     "The tests verify identities they made themselves; none sends a forged one through a client's or server's handlers.",
     ["zkclient/push.go", "zkclient/zkclient.go", "zkclient/kxacceptwindow.go", "zkclient/acceptclientfingerprint.go", "zkclient/welcome.go", "zkserver/account.go"],
     [("step2IDKX, step2IDKX2", "zkclient/push.go"), ("handleRPC IdentityFindReply", "zkclient/zkclient.go"), ("kxAcceptWindow.KeyHandler", "zkclient/kxacceptwindow.go"), ("handleAccountCreate", "zkserver/account.go")],
     note="Identities read back from the user's own disk are trusted as the program's own.")

prop("C19", "The client talks only to the server the user accepted",
     "A client starts a session only after the peer's TLS certificate was found equal to the pinned one, or was pinned just now because the user accepted that server; the session is bound to the pinned server identity's key and to the user's own keys. "
     "The pinned identity and certificate come only from disk or from what the user accepted, and a certificate is written to disk only after that acceptance or after the session with the pinned identity stood.",
     ["inputs", "programs", "histories"], "every path from dialling to a session and every assignment of the pin",
     "The tests never dial a server with a changed certificate.",
     ["zkclient/zkclient.go", "zkclient/acceptserverfingerprint.go", "zkclient/mainwindow.go", "zkclient/welcome.go"],
     [("goOnline, sessionPhase, finalizeAccountCreation", "zkclient/zkclient.go"), ("acceptWindow.KeyHandler", "zkclient/acceptserverfingerprint.go"), ("action /acceptnewcert", "zkclient/mainwindow.go")],
     note="A server already known by its identity may present a new certificate while an account is created: its identity key is still proven by the session.")

prop("C37", "Client and server agree on the protocol before anything else is exchanged",
     "The server's welcome announces the protocol version it was built with. The client goes online only after the session stood and a welcome was decoded whose version equals its own exactly and none of whose properties is unknown to it.",
     ["inputs", "programs"], "every welcome a server can send",
     "No test has a server with another version or with an unknown property.",
     ["zkclient/zkclient.go", "zkserver/zkserver.go"],
     [("welcomePhase", "zkclient/zkclient.go"), ("welcome", "zkserver/zkserver.go")])

prop("C17", "Every secret is drawn whole from the system's random source",
     "Keys, key exchange secrets, nonces outside a session, salts, invitation tokens, rendezvous PINs, account creation tokens and certificates are drawn from the operating system's cryptographic random source, through whatever variable or field the reader is handed on. "
     "What was drawn is used only when drawing it succeeded; each sealed message gets a nonce of its own, drawn whole; tokens and PINs are drawn from at least a million values. "
     "The server answers no key exchange before its ephemeral key was drawn.",
     ["inputs", "fault_sequences", "programs"], "every failure of the random source, every path from drawing to use",
     "Tests cannot tell random bytes from predictable ones, and the random source never fails in them.",
     ["blobshare/blobshare.go", "ratchet/ratchet.go", "session/kx.go", "zkidentity/zkidentity.go", "tools/tools.go", "zkclient/groupinvites.go", "zkserver/rendezvous.go", "tools/zkservertoken/zkservertoken.go", "zkserver/cert.go"],
     [("Encrypt, NewKey", "blobshare/blobshare.go"), ("randBytes, Encrypt, FillKeyExchange", "ratchet/ratchet.go"), ("regenerateEphemeral, Init", "session/kx.go"), ("New", "zkidentity/zkidentity.go"), ("RandomUint64", "tools/tools.go")],
     technique="dataflow of readers to their origin and path-sensitive typestate analysis over SSA",
     note="That tokens reduced modulo a million are guessable by brute force is the program's own choice. The session's counters are C16's.")

prop("C39", "No peer chooses where a file is read or written",
     "A string that came from another party (a nick, a group's name, a file's name, any string in a message or in a public identity) becomes part of the path of a file operation only after it was checked to be a plain name, was reduced to its last element, or was encoded; "
     "so everything the client and the server create, overwrite, rename or delete for a peer stays in the directory meant for it. The check of names refuses the empty name, both dot names and separators.",
     ["inputs", "programs", "histories"], "every string of every message, through fields, maps, files read back and concatenation, to every file operation",
     "Tests use honest names; a path only leaves its directory for a name made to do so.",
     ["zkclient/zkclient.go", "zkclient/groupchat.go", "zkclient/groupinvites.go", "zkclient/chunk.go", "zkclient/identity.go", "zkserver/account/account.go", "zkserver/cache.go"],
     [("log, getGroupFromDisk", "zkclient/zkclient.go"), ("_gcSaveDisk, _deleteGroup, validName", "zkclient/groupchat.go"), ("doHandleChunk", "zkclient/chunk.go"), ("Deliver, Delete", "zkserver/account/account.go")],
     technique="backwards taint dataflow over SSA from file operations to decoded fields, with checks and sanitizers",
     note="Paths on Unix: a backslash is no separator. Files the user names to send are the user's own choice.")

prop("C23", "A received file is whole and replaces nothing",
     "A file a contact sends appears under its name only if its content has the digest the contact announced, and never in place of a file that is there. "
     "Chunks are appended only in order, only to the spool file of their own sender and digest, and never beyond the announced size; transfers do not disturb each other. "
     "The sending client announces the size and digest of the whole file first and sends every byte exactly once, each chunk with its offset and in memory that is not reused while it waits.",
     ["inputs", "programs", "histories"], "every chunk and announcement, in any order, and every length of a file",
     "No test transfers a file; a chunk out of order, too long, or of another transfer needs a contact that misbehaves.",
     ["zkclient/chunk.go", "zkclient/send.go"],
     [("doHandleChunkNew, doHandleChunk", "zkclient/chunk.go"), ("send, completeSend", "zkclient/send.go")],
     note="That a file the user is sending does not change meanwhile is the user's business; the receiver finds out by the digest. Where the file may go is C39's.")

prop("C38", "Client and server only talk over TLS 1.2 or later, and in the session",
     "Every network connection is used for nothing but TLS, on both sides; the TLS configuration that is used always refuses versions before 1.2 and every cipher suite that is not both forward secret and authenticated. "
     "Nothing logs the keys of a connection, only the client, which pins the server's certificate itself, skips its verification, "
     "and once a session was set up on a connection nothing is read from or written to it except through that session.",
     ["programs", "configurations"], "every connection accepted or dialled, every TLS configuration and every use of a connection in the program",
     "No test opens a connection between client and server; a weak version works as well as a strong one.",
     ["zkserver/zkserver.go", "zkclient/net.go", "zkclient/zkclient.go", "session/kx.go"],
     [("listen, preSession", "zkserver/zkserver.go"), ("tlsConfig", "zkclient/net.go"), ("preSessionPhase, sessionPhase", "zkclient/zkclient.go")],
     technique="forward and backward value-flow analysis over SSA of connections and TLS configurations, with dominance checks",
     note="crypto/tls is trusted to honour its configuration. The administrator's UNIX socket is not a network connection. Pinning is C19's and what the session does C15's and C16's.")

prop("C26", "Secrets stay with their owner: private files, no key shown or sent",
     "Every file and directory the client, the server and the tools make gives group and others no access, and none is opened up later. "
     "No private key, session key, ratchet key or other key that seals or signs, and no structure that holds one, is part of a log line, an error, the screen, an exported record or a message, unless sealed under a key.",
     ["programs", "inputs", "configurations"], "every file creation and every value shown, logged, exported or sent anywhere in the program",
     "A leak changes nothing a test looks at; the mode of a file neither.",
     ["zkidentity/zkidentity.go", "session/kx.go", "ratchet/ratchet.go", "zkserver/zkserver.go", "zkserver/account/account.go", "zkclient/zkclient.go", "zkclient/identity.go", "zkclient/chunk.go", "inidb/inidb.go", "debug/debug.go", "tools/zkexport/zkexport.go"],
     [("FullIdentity", "zkidentity/zkidentity.go"), ("D, SetDiagnostic", "session/kx.go"), ("zkclient, zkserver", "tools/zkexport/zkexport.go"), ("log", "debug/debug.go")],
     technique="forward taint dataflow over SSA from keys to everything shown or sent, and constant propagation of file modes",
     note="Secrets are the known key fields and whatever is used as a key; texts of messages and one-time tokens are not. What sealing, signing and hashing give out is taken to reveal nothing. The process's umask only narrows modes.")

prop("C35", "A record stored in a database is read back as the same record",
     "A record set in a database and saved is read back in the same table, under the same key, with the same value, and no other record with it: "
     "keys, values and tables that the file can not hold as they are (line breaks, blanks around, an equals sign in a key, a key that reads as a comment) are refused, "
     "the default table, which has no header, is written before all others, and every table and every record is written.",
     ["inputs", "histories"], "every table, key and value, and every order in which the tables are walked",
     "Tests use a few plain words; the order of a map differs from run to run.",
     ["inidb/inidb.go"],
     [("Set, NewTable, Save", "inidb/inidb.go")],
     technique="path-sensitive abstract interpretation of the checks a key and a value pass, and loop coverage analysis over SSA",
     note="The reading side is the ini library, whose format is taken as its source says: lines are trimmed, assignments split at the first equals sign, comments start with ; or #. A writer that walks sorted keys rather than the maps is not analysed for coverage.")

prop("C33", "Every request in flight has a tag of its own",
     "A tag the client obtained goes into exactly one request or is given back exactly once, and is not given back once the request was sent; a request carries a tag that was obtained and an acknowledge the tag of the push it answers. "
     "What waits for a reply is recorded under its tag before the request is sent and is gone from there before the tag is given back. "
     "The tag of a reply is given back exactly once, the tag of a push never; a tag that is not in use is refused and ends the session.",
     ["histories", "inputs", "schedules"], "every path from obtaining a tag to sending or giving it back, every message the server may send",
     "No test drives the client; a tag lost or used twice shows only after dozens of requests or with a server that misbehaves.",
     ["zkclient/zkclient.go", "zkclient/msg.go", "tagstack/tagstack.go"],
     [("handleRPC", "zkclient/zkclient.go"), ("cacheCRPC, writePRPC", "zkclient/msg.go"), ("Pop, Push", "tagstack/tagstack.go")],
     technique="path-sensitive typestate analysis over SSA with interprocedural inlining",
     note="The server's side of tags is C05's and C27's. A request that waits in the queue over a reconnect gets a new tag when it is sent.")

prop("C34", "What the client queues is sent once and in order",
     "A message leaves the client's queue only from its head and only after that very message was written; after it was written it leaves before anything else is written, so it is sent once. "
     "A message is queued at the tail, and the low priority queue is served only while the high priority one is empty.",
     ["schedules", "fault_sequences", "histories"], "every path through the scheduler's goroutines, every failing write",
     "No test drives the scheduler; a message skipped or sent twice needs a write that fails at the right moment.",
     ["zkclient/msg.go"], [("scheduler, scheduleCRPC, schedulePRPC", "zkclient/msg.go")],
     technique="path-sensitive typestate analysis over SSA of the queues, with closures resolved",
     note="What the server does with a message written before the connection broke is C05's and C06's. Pings and acknowledges of an earlier session are dropped, they mean nothing in another.")

prop("C41", "What was handed over is not changed afterwards",
     "Once a function put memory where others find it (queued a message or a recipient, sent it on a channel, stored it in a table or in what it returns, gave it to a goroutine) it does not write that memory again, so that what is sent, shown or saved later is what was handed over. "
     "A list inside a message or a group that a function was given is never changed in place: others hold the same list.",
     ["schedules", "inputs"], "every function, every path from handing memory over to writing it again, any delay between queueing and use",
     "Whether the queue is drained before the memory is reused depends on timing and on how many members, keys or chunks there are; tests have one of each.",
     ["zkclient/send.go", "zkclient/groupchat.go", "zkclient/push.go", "zkclient/msg.go", "ratchet/ratchet.go", "zkserver/zkserver.go"],
     [("scheduleCRPC recipients", "zkclient/groupchat.go"), ("completeSend's chunks", "zkclient/send.go"), ("handleGroupPart's list", "zkclient/push.go"), ("Marshal's saved keys", "ratchet/ratchet.go")],
     technique="ownership analysis: alias classes and reference flow per function with interprocedural summaries, and control flow reachability of writes after hand-over",
     note="Fields of objects shared on purpose are C11's. Memory behind unknown function values and inside foreign libraries is taken not to be kept.")

prop("C24", "What one side sends, the other reads as the same message",
     "Every message client and server exchange is written as one frame of a header and the payload that belongs to its command, and the other side decodes, in that order, the type that was written; no command is sent that its reader does not know. "
     "What a client seals for a contact says which command and compression it has, the receiving client decodes the type it was made from under that command, and decompresses exactly what was compressed. "
     "Before the session both sides of each mode write and read the same types in the same order, and what is left for another client outside a session is what that client decodes.",
     ["inputs", "programs"], "every message of every command and every size, whichever code sends it",
     "The existing tests encode single records and decode them with the type they wrote; no test lets one side read what the other side's code sends.",
     ["rpc/rpc.go", "zkclient/zkclient.go", "zkclient/msg.go", "zkclient/push.go", "zkserver/zkserver.go", "zkserver/account.go"],
     [("crpc, queueMessage callers", "zkclient/msg.go"), ("handlePush, handleRPC, writeMessage", "zkclient/push.go, zkclient/zkclient.go"),
      ("handleSession, sessionWriter, preSession", "zkserver/zkserver.go"), ("TaggedCmd*, CRPCCmd*", "rpc/rpc.go")],
     technique="protocol conformance: command/type tables of both ends extracted by path-sensitive exploration and origin analysis, and compared",
     note="The XDR codec and zlib are trusted to round-trip a value of one type. Whether the right contact reads it is C12, C13 and C18.")

prop("C28", "What is meant for a contact goes to that contact and is shown as from it",
     "What is queued for a contact is sealed with the ratchet of that contact and handed to the server for delivery to that contact, and the ratchet and identity of a contact are read from and written to that contact's directory only. "
     "A private message, an action or a file the user sends goes to the contact of the window in use, to the contact of a window with exactly the nick that was given, or to the one the address book has under it; never to the identity of a group's window, of the console or of another contact, and what is for a group goes to its members. "
     "What arrives is opened with the ratchet of the identity the server says it came from, and a private or group message is shown in the window of that contact, or of that group, under that contact's name.",
     ["inputs", "histories", "configurations"], "every command the user may type in every window, every message from every contact, any set of windows, groups and contacts",
     "No test drives the client with more than one contact; a message to the wrong one looks like a success.",
     ["zkclient/msg.go", "zkclient/push.go", "zkclient/zkclient.go", "zkclient/mainwindow.go", "zkclient/groupchat.go", "zkclient/identity.go", "zkclient/send.go", "zkclient/addressbook.go"],
     [("cacheCRPC, crpc, pm", "zkclient/msg.go"), ("loadRatchet, updateRatchet, loadIdentity, saveIdentity", "zkclient/identity.go"), ("getConversation, groupConversation", "zkclient/zkclient.go"),
      ("action, doPm", "zkclient/mainwindow.go"), ("handlePush, handlePm, handleGroupMessage", "zkclient/push.go"), ("addressBookConversation", "zkclient/addressbook.go")],
     technique="path-sensitive information flow analysis over SSA: which contact, window or nick an identity came from, and what it was compared with on that path",
     note="That two contacts do not share a nick is the address book's; a window that closes while a message is on its way to the screen moves those behind it by one. The ratchet files' contents are trusted. That every member of a group gets its copy is not decided.")

prop("C40", "Every contact has a nick of its own in the address book",
     "Whatever nicks contacts chose and in whatever order they are added, every contact is in the address book, under a nick no other contact has there, and is found under that nick and by its identity; adding a contact never takes the place of another, and the nick an addition reports is the one the contact has. "
     "A search returns only a contact with exactly the nick or identity that was asked for, a removal removes only the contact with that identity, and one that is reported as done was done.",
     ["inputs", "histories"], "every nick and identity, every order of additions, searches and removals, every order in which the table is walked",
     "The existing tests add two contacts of a name; a search that matches too much shows only with contacts that resemble each other.",
     ["zkclient/addressbook/addressbook.go"],
     [("Add, Del, FindNick, FindIdentity", "zkclient/addressbook/addressbook.go")],
     technique="path-sensitive abstract interpretation over SSA with symbolic keys: what was found under the key, or compared with it, on that path",
     note="That the nick of a contact stays the same over a restart is not promised: the directory is read in another order.")
