"""The properties, how they are decided, and what is assumed. vlib/gen.py turns this into properties.jsonl, MANIFEST.json, props.json."""
HOOKS = None
NOT_APPLICABLE = {}
CORE = "flmodules/src/dht_storage/core.rs"
S_NOTE = ("Unbounded proof, function by function, over the extracted code of RealmStorage; std collections and iterator adapters carry trusted contracts "
          "(specs/prelude.rs), a Flo is seen through its ID, version, config and encoded size, and sizes stay below 2^60. ")
KAD = "flmodules/src/dht_router/kademlia.rs"
K_NOTE = ("Unbounded proof, function by function, over the extracted code of Kademlia, KBucket, KNode and TickIDs; std collections and iterator adapters carry trusted "
          "contracts (specs/prelude.rs). k and the ping interval are at least 1. Not under contract: add_nodes_active of Kademlia (only for tests), bucket_nodes, Display. ")
ACC = "flcrypto/src/access.rs"
SIG = "flcrypto/src/signer.rs"
ED = "flcrypto/src/signer_ed25519.rs"
FLO = "flmodules/src/flo/flo.rs"
A_NOTE = ("Unbounded proof by structural recursion over conditions, on the extracted code of access.rs and signer_ed25519.rs. Assumed: ed25519-dalek (an uninterpreted validity relation; "
          "what is signed is valid), SHA-256 has no collisions, MessagePack round trips, derived Clone copies, enum_dispatch dispatches, conditions with fewer than 2^32 parts. "
          "to_link needs a condition without NotAvailable (it is todo!() there); to_condition is checked with its awaits removed and without termination. ")
F_NOTE = ("Unbounded proof over the extracted code of flo.rs on top of the contracts of access.rs. Assumed: SHA-256 has no collisions, MessagePack round trips, derived Clone copies, "
          "fewer than 2^32 versions and changes. The realm is in no digest and DHT storage does not call verify: both are outside of what is claimed. ")
GC = "flmodules/src/gossip_events/core.rs"
GI = "flmodules/src/gossip_events/intern.rs"
RC = "flmodules/src/random_connections/core.rs"
RI = "flmodules/src/random_connections/intern.rs"
RN = "flmodules/src/random_connections/nodes.rs"
RM = "flmodules/src/router/messages.rs"
G_NOTE = ("Unbounded proof over the extracted code of the gossip module (core.rs, intern.rs). Assumed: SHA-256 has no collisions, YAML round trips, writing to storage does not fail, "
          "derived Clone copies; brokers deliver in order (not under contract). The older formats of the stored events are not under contract. ")
R_NOTE = ("Unbounded proof over the extracted code of the random_connections module (core.rs, nodes.rs, intern.rs) and NodeIDs. Assumed: choose_multiple gives distinct positions, "
          "ceil(2 ln n) is an uninterpreted number of at most 89, YAML round trips, less than 1.8e9 known nodes, no node stays for 2^32 ticks; brokers deliver in order. "
          "RandomStats::limit_active (not used) is not under contract. ")
IDS = "flarch/src/nodeids.rs"
I_NOTE = ("Unbounded proof over the extracted code of nodeids.rs, with the framing of what is hashed proved to be injective. Assumed: SHA-256 has no collisions, UTF-8 is injective, "
          "contracts of the std string and slice functions. Not under contract, only searched: printing (write_fmt), serde, from_vec and hash_domain_hashmap. ")
NS = "flmodules/src/network/signal.rs"
NN = "flmodules/src/network/intern.rs"
NC = "flmodules/src/nodeconfig.rs"
PM = "flarch/src/web_rtc/messages.rs"
WS = "flarch/src/web_rtc/libc/web_socket_server.rs"
N_NOTE = ("Unbounded proof over the extracted code of the signalling server (with NodeInfo::get_id and verify, PeerInfo), and of the network module. Assumed: ed25519 (an uninterpreted validity relation), "
          "challenges drawn by U256::rnd were not drawn before, JSON and YAML round trip, the id of a NodeInfo is never read from a message, the contracts of bimap, the websocket server numbers its "
          "connections uniquely (N06), derived Clone copies; brokers deliver in order. A signalling server of another version makes a node stop on purpose. ")
T_NOTE = ("Unbounded proof over the extracted NodeConnection, Packet and PacketCollector, and over the lemmas which follow a text through any number of steps. Assumed: serde_json reads what it writes, random packet identifiers differ, "
          "the length of a text in bytes is between its number of characters and four times that, derived Clone copies. Texts of more than 65536 packets (1 G characters) are not covered. The brokers and WebRTC itself are only run by the search. ")
NCN = "flarch/src/web_rtc/node_connection.rs"
W_NOTE = ("Unbounded proof over the extracted message handler and accept loop (with the task of each connection run in place) of the websocket server: what is sent, closed, stored and announced carries the number it belongs to. Assumed: tokio, tungstenite, "
          "the reader task (select!) and the lock, under which connections stay where they were put. That messages do arrive, and that a client recovers from a closed connection, is only searched, over loopback sockets. ")
DI = "flmodules/src/dht_router/intern.rs"
DR_NOTE = ("Unbounded proof over the extracted Intern of dht_router, on top of the contracts of Kademlia. Assumed: YAML round trips, choose gives one of the elements, the id of a NodeInfo, "
           "the watch channel of the statistics, derived Clone copies; brokers deliver in order. k and the ping interval are at least 1. ")
DSM = "flarch/src/data_storage.rs"
DSL = "flarch/src/data_storage/libc.rs"
NODE = "flnode/src/node.rs"
RTC = "flarch/src/web_rtc/mod.rs"
D_NOTE = ("Unbounded proof over the extracted code of the in-memory and the file storage, the latter against a history of the file system, of which a stop leaves any state. Assumed: a rename replaces a file at once, "
          "writing and reading report their failures, UTF-8 is injective, format! puts its parts one after the other, a lock gives exclusive access; a data loss below the file system is outside. Keys make valid file names; two storages on the same directory "
          "have names which don't make the same file names. The storage of the browser is not under contract. ")
ID_NOTE = ("Unbounded proof over the extracted code of nodeconfig.rs and Node::{get_config, set_config}. Assumed: SHA-256 is a function, ed25519 (an uninterpreted validity relation), YAML, TOML and JSON round trip, base64 round trips, "
           "the storage keeps what it was given (D01). The explicit id of a NodeInfo is for tests and never read from a message. A stored configuration which cannot be read is replaced by a new identity, by design. ")
RV = "flmodules/src/dht_storage/realm_view.rs"
BLOB = "flmodules/src/flo/blob.rs"
DSB = "flmodules/src/dht_storage/broker.rs"
CRY = "flmodules/src/flo/crypto.rs"
V2_NOTE = ("Unbounded proof, termination included, over the extracted DHTStorage. Assumed: what the broker does with a queue of messages and its taps (B01, B02, under contract there), the time limit of select!, that there are finitely many identifiers, "
          "and the contracts of the std adapters. The async code is taken as sequential code of one caller; what the module behind the queue answers is S06. ")
V3_NOTE = ("Unbounded proof over the extracted RealmView, RealmStorage and RealmViewBuilder, on top of the contracts of DHTStorage (V02) and FloWrapper (F04). Assumed: what new pages, tags and realms are made of (new_cuckoo, FloRealm::new), what add_child, rm_child and get_parents do with a page (proved for blobs in V01), set_service, "
           "no Flo is changed four billion times, a change given to update_page keeps nothing between two calls, a closed broker stops update_child_links. Only searched: get_cuckoos of a view. The async code is taken as sequential code of one caller. ")
V_NOTE = ("Unbounded proof, termination included, over the extracted code of the lookup in RealmStorage and RealmView and of the traits BlobAccess, BlobFamily and BlobPath. Assumed: contracts of the std maps, strings and iterator adapters; "
          "get_blob of the blob types gives the blob in their cache; derived Clone copies. Only searched: get_page_parent_remaining (a regular expression). Pages with the same name next to each other: only the first one is followed. ")
C_NOTE = ("Unbounded proof over the extracted WebRTCConn. Assumed: what NodeConnection (T01, T02) and the broker (B01, B02) do, under contract there; each connection shows what it says to the translator it was given. "
          "A connection whose modules are gone takes nothing more. ")
RB = "flmodules/src/router/broker.rs"
SI = "flmodules/src/dht_storage/intern.rs"
X_NOTE = ("Unbounded proof over the extracted handlers of the router and of NetworkWrapper. Assumed: YAML round trips, the id of a NodeInfo, derived Clone copies; brokers deliver in order. ")
SI_NOTE = ("Unbounded proof over the extracted message handler of dht_storage (intern.rs) on top of the contracts of RealmStorage. Assumed: YAML round trips, the DataStorage keeps what it is given and was empty or written by "
           "this module, FloRealm::try_from (see F04), what one realm holds fits in memory (less than 2^60 bytes), the watch channel of the statistics, derived Clone copies; brokers deliver in order. ")
BR = "flarch/src/broker.rs"
B_NOTE = ("Unbounded proof over the extracted Broker, Intern, Subsystem and Translator. Assumed: tokio's channels keep their messages in order (modelled as logs, ended when the other side is gone), the subsystems behind trait objects "
          "(logged calls, any answer), less than 2^64 subsystems, copies and messages, derived Clone copies. Spawned tasks are proved as if run to their end; the loop of Intern::new which calls the proved functions, and the answers of settling across tasks, are only run by the search. ")
WPC = "flmodules/src/web_proxy/core.rs"
WPI = "flmodules/src/web_proxy/intern.rs"
WPB = "flmodules/src/web_proxy/broker.rs"
WPR = "flmodules/src/web_proxy/response.rs"
WP_NOTE = ("Unbounded proof over the extracted core.rs and intern.rs of the web proxy. Assumed: YAML round trips, channels keep their order, random numbers of requests differ, fewer than 2^32 packets, derived Clone copies; brokers deliver in order (B01). "
           "What reqwest gives for a page (status, headers, pieces) is assumed to be the page; WebProxy::get (broker.rs) and Response::text are only run by the search, over loopback sockets. ")
PROPS = [
 dict(id="S01", title="A realm's storage counts its bytes exactly and keeps to its space limit",
  statement="After every insertion or update of an item, the number of bytes a realm reports as used is the sum of the encoded sizes of the items it holds, counts by number and by distance describe exactly these items, and every item is found under its own identifier. The bytes used never exceed the space configured for the realm, unless the realm's own description is all that is left.",
  over=["histories", "inputs", "configurations"], forall="every sequence of insertions, updates and cuckoo registrations, every item size, every configured space",
  why="The tests insert a handful of items of similar size; accounting errors only show when updates change sizes, when cuckoos grow an entry, or when an eviction happens in the same step.",
  files=[CORE], mechanism=[("RealmStorage::upsert_flo", CORE), ("RealmStorage::put", CORE), ("RealmStorage::remove_entry", CORE), ("RealmStorage::remove_furthest", CORE), ("RealmStorage::store_cuckoo_id", CORE)],
  specs=["dht_core"], level="proof", note=S_NOTE),
 dict(id="S02", title="Stored items only ever move to newer versions",
  statement="An item held by a realm's storage is only ever replaced by a strictly newer version of the same item, and a strictly newer version which is accepted replaces the older one. No item appears which was not handed in, and the answer says whether the version was news.",
  over=["histories", "inputs"], forall="every sequence of insertions in every order of versions",
  why="Tests insert one version after the other in order; late, repeated and equal versions arriving after evictions are never tried.",
  files=[CORE], mechanism=[("RealmStorage::upsert_flo", CORE), ("RealmStorage::put", CORE), ("RealmStorage::remove_furthest", CORE)],
  specs=["dht_core"], level="proof", note=S_NOTE),
 dict(id="S03", title="Cuckoo links are kept, complete and listed once",
  statement="Once an item attaches itself to a parent which is stored, or links are registered for it, the parent lists every one of them exactly once. No later insertion or update of any item removes or changes the links of an item which stays stored.",
  over=["histories", "inputs"], forall="every sequence of insertions, updates of parents and of cuckoos, and registrations",
  why="The only test inserts one cuckoo and looks whether the list exists; updates of the parent, repeated cuckoos and evictions are not covered.",
  files=[CORE], mechanism=[("RealmStorage::store_cuckoo_id", CORE), ("RealmStorage::put", CORE), ("RealmStorage::upsert_flo", CORE)],
  specs=["dht_core"], level="proof", note=S_NOTE),
 dict(id="S04", title="Space is freed from the items furthest away, and never from the realm itself",
  statement="Whatever is dropped to make space is at least as far from the node as everything which is kept, and the description of the realm is never dropped. A new item for which there is space is stored without dropping anything; one for which there is none is stored only at the cost of items strictly further away, and refused if those cannot make enough space.",
  over=["histories", "inputs", "configurations"], forall="every content of the storage, every distance and size of the new item, every configured space",
  why="The test evicts three items of equal size in a fixed layout; ties, a far realm description, sizes around the limit and updates which grow are not covered.",
  files=[CORE], mechanism=[("RealmStorage::remove_furthest", CORE), ("RealmStorage::size_at_depth", CORE), ("RealmStorage::upsert_flo", CORE)],
  specs=["dht_core"], level="proof", note=S_NOTE),
 dict(id="S05", title="Synchronising asks for exactly what the other side has newer",
  statement="Given a neighbour's announcement, a realm's storage asks for exactly the items it does not hold, holds in an older version, or holds with fewer cuckoos, and asks for nothing if there are none. Its own announcement lists exactly the items it holds, with their versions and numbers of cuckoos.",
  over=["inputs", "histories"], forall="every stored content and every announcement, including repeated and unknown items and extreme numbers",
  why="One test with one item and one announcement.",
  files=[CORE], mechanism=[("RealmStorage::sync_available", CORE), ("RealmStorage::get_flo_metas", CORE)],
  specs=["dht_core"], level="proof", note=S_NOTE),

 dict(id="K01", title="The distance between two nodes is the length of their common prefix",
  statement="The distance class of two identifiers is the number of leading bits they have in common, 255 for identical ones. It is the same in both directions.",
  over=["inputs"], forall="every pair of identifiers",
  why="The tests compare about a dozen identifiers made of two hex digits.",
  files=[KAD], mechanism=[("KNode::get_depth", KAD), ("KNode::new", KAD)],
  specs=["kademlia"], level="proof", note=K_NOTE),
 dict(id="K02", title="The routing table keeps every node once, in the bucket of its distance",
  statement="After any sequence of additions, removals, messages and ticks, the own identifier is not in the routing table, no node is in it twice, every node is in the bucket of its distance or, further away, in the root bucket, and buckets other than the root hold at most k nodes in use. A new node is taken in when its bucket has a free place; removing a node removes it and no other, and rearranging buckets invents no node.",
  over=["histories", "inputs", "configurations"], forall="every sequence of operations, every identifier, every k of at least 1 and ping interval of at least 1",
  why="Tests check a few fixed sequences; splitting and merging of buckets with nodes both in use and waiting is hardly covered.",
  files=[KAD], mechanism=[("Kademlia::add_node", KAD), ("Kademlia::rebalance_overflow", KAD), ("Kademlia::rebalance_wanting", KAD), ("KBucket::remove_all_nodes_at_depth", KAD), ("Kademlia::remove_node", KAD), ("Kademlia::node_disconnected", KAD)],
  specs=["kademlia"], level="proof", note=K_NOTE),
 dict(id="K03", title="Messages are always passed on towards their destination",
  statement="The next hops for a destination are exactly the nodes in use at the destination's distance if there are any. Otherwise a direct message and the first hop of a message have no next hop, and a message which came from another node is only passed to all nodes of the nearest distance beyond both the destination and the node it came from. So every hop is closer to the destination, or as close to the destination and closer to the forwarding node than the one before: a message never returns to where it came from.",
  over=["inputs", "histories"], forall="every table, destination and previous hop",
  why="Tests route in three fixed tables; a loop needs a particular arrangement of several tables.",
  files=[KAD], mechanism=[("Kademlia::route_closest", KAD), ("Kademlia::route_direct", KAD), ("Kademlia::get_nodes_depth", KAD)],
  specs=["kademlia"], level="proof", note=K_NOTE),
 dict(id="K04", title="A node which is silent or gone is not used any more",
  statement="On every tick a node in use is asked for a sign of life whenever it has been silent for a multiple of the ping interval, and reported as dropped and removed exactly when it has been silent for the timeout. A message from a node restarts its time and puts it in use if there is a free place, and changes nothing for the others. A node which has disconnected or been removed is not in the table any more, wherever it was.",
  over=["histories", "configurations"], forall="every sequence of ticks, messages, additions and disconnections, every interval and timeout",
  why="Tests tick one bucket with fixed intervals; a node disconnecting while it is in the root bucket was not covered and was in fact kept.",
  files=[KAD], mechanism=[("Kademlia::tick", KAD), ("KNode::tick", KAD), ("KBucket::tick", KAD), ("Kademlia::node_active", KAD), ("KBucket::node_active", KAD), ("Kademlia::node_disconnected", KAD)],
  specs=["kademlia"], level="proof", note=K_NOTE),

 dict(id="A01", title="A version specification accepts exactly the versions it describes",
  statement="A specification of a minimal, exact or maximal version accepts exactly the versions which are at least, equal to or at most the version it names. A badge fits a specification only if it is the badge the specification names and its version is accepted.",
  over=["inputs"], forall="every specification, every version, every identifier",
  why="Tests use version 0 with one kind of specification.",
  files=[ACC], mechanism=[("VersionSpec::accepts", ACC), ("BadgeLink::fits_version", ACC)],
  specs=["access"], level="proof", note=A_NOTE),
 dict(id="A02", title="Signatures are accepted exactly when they meet the condition",
  statement="Verifying signatures against a condition says yes exactly if enough valid signatures are there: a key's own valid signature for a key, as many parts as the threshold asks for out of a list, the embedded condition for a badge; never for a failing or missing condition. A signature which is present but not valid makes the verification fail with an error, wherever the key appears.",
  over=["inputs"], forall="every condition of any depth, every set of signatures, every digest and message",
  why="Tests check five small conditions with at most three good signatures; nested thresholds, wrong signatures next to enough good ones, and empty lists are not covered.",
  files=[ACC], mechanism=[("ConditionSignature::verify_cond", ACC), ("ConditionSignature::verify_digest", ACC), ("ConditionSignature::verify_msg", ACC)],
  specs=["access"], level="proof", note=A_NOTE),
 dict(id="A03", title="Who can sign is told correctly, and signatures are bound to the condition",
  statement="A set of keys is said to be able to sign for a condition exactly if valid signatures by all of them meet it. A key the condition does not name cannot sign and changes nothing; one it names adds its own valid signature and leaves the others. What is signed for a message depends on the message and on everything the condition says, so that a signature for one condition is none for another.",
  over=["inputs", "histories"], forall="every condition, every set of keys in every order, every sequence of signatures",
  why="can_sign was only tested with one key, and in fact was not implemented for more.",
  files=[ACC], mechanism=[("Condition::can_sign", ACC), ("Condition::has_verifier", ACC), ("Condition::hash", ACC), ("ConditionSignature::sign_digest", ACC), ("ConditionSignature::signers_digest", ACC)],
  specs=["access"], level="proof", note=A_NOTE),
 dict(id="A04", title="A condition is only taken for a link which says the same",
  statement="A condition passes for a link only if it is the link with every key and badge filled in: the same keys, the same thresholds, the same parts in the same order, accepted versions of the right badges. A condition without badges does pass for its own link. Looking up a link gives the link with exactly what the lookups answered, and a mark where nothing was found.",
  over=["inputs"], forall="every condition, every link, every answer of the lookups",
  why="There was no test with a condition which should not pass; thresholds were in fact not compared, and lists of parts not handled.",
  files=[ACC], mechanism=[("Condition::equal_link", ACC), ("Condition::to_link", ACC), ("ConditionLink::to_condition", ACC)],
  specs=["access"], level="proof", note=A_NOTE),
 dict(id="A05", title="A key accepts its own valid signatures only, whatever it is given",
  statement="A key accepts a byte string as a signature of a message exactly if it has the right length and is a valid signature by this key of this message; anything else is answered with an error, never with a crash. The identifier of a key is the hash of the key, the same for the signer and the verifier.",
  over=["inputs"], forall="every byte string, every message, every key",
  why="Tests flip one byte; signatures of another length, which can be received from the network, did in fact crash.",
  files=[ED, SIG], mechanism=[("VerifierEd25519::verify", ED), ("VerifierEd25519::get_id", ED), ("SignerEd25519::sign", ED)],
  specs=["access"], level="proof", note=A_NOTE),
 dict(id="F01", title="A Flo verifies only if every step was signed as the one before demands",
  statement="A Flo which verifies has a first condition signed by what it demands itself, every later condition signed by what the one before it demands, and data signed by what the last condition demands. The signatures cover identifier, type, configuration, nonce, condition, data, version and number of changes, so that none of them can be changed or reordered afterwards. A Flo without badges whose steps were all signed like this does verify.",
  over=["inputs", "histories"], forall="every Flo, however it was put together, with any number of changes",
  why="Tests verify honestly made Flos with up to two changes, and no manipulated one.",
  files=[FLO], mechanism=[("Flo::verify", FLO), ("Flo::digest_data", FLO), ("Flo::digest_cond_update", FLO), ("Flo::digest_cond_genesis", FLO)],
  specs=["flo"], level="proof", note=F_NOTE),
 dict(id="F02", title="A data update is complete, signed and one version later, or refused",
  statement="Updating the data gives a Flo with the new data, the version one higher, and a data signature which is valid for exactly this and meets the condition it names; identifier, realm, type, configuration and all conditions stay. If the signatures are not enough, or are for another Flo, version or content, the update is refused and nothing changes.",
  over=["inputs", "histories"], forall="every Flo, every update, every set of signers, any time between preparing and applying the update",
  why="Tests update once, with the right signer.",
  files=[FLO], mechanism=[("Flo::update_data", FLO), ("Flo::start_sign_data", FLO), ("Flo::update_data_signers", FLO), ("Flo::calc_flo_id", FLO)],
  specs=["flo"], level="proof", note=F_NOTE),
 dict(id="F03", title="Changing a Flo's condition appends the new one and keeps everything else",
  statement="Changing the condition appends it, together with the signatures given for it, to the conditions of the Flo and replaces the data signature; identifier, data, version, realm, type and all former conditions stay. What has to be signed is the new condition with its number and the identifier, and the data with the new number of conditions, and signers the old condition does not name are refused. If the signatures are enough, an authentic Flo stays authentic.",
  over=["inputs", "histories"], forall="every Flo, every new condition, every set of signers",
  why="Tests change the condition twice with one key each.",
  files=[FLO], mechanism=[("Flo::start_sign_cond", FLO), ("Flo::update_cond", FLO), ("Flo::update_cond_signers", FLO)],
  specs=["flo"], level="proof", note=F_NOTE),
 dict(id="F04", title="The object an application sees is what the signed data says",
  statement="However a typed Flo is made, edited, updated or read from another node, the object the application gets is the decoded data of the Flo, and identifier, version, realm and condition are those of the Flo. A Flo of another type or with data which cannot be decoded is refused. Edits which are refused leave the old object as it was.",
  over=["inputs", "histories"], forall="every type of object, every sequence of edits and changes of the condition",
  why="Tests look at one edit of one object.",
  files=[FLO], mechanism=[("FloWrapper::try_from", FLO), ("FloWrapper::edit_data_signers", FLO), ("FloWrapper::update_data", FLO), ("FloWrapper::from_type_config", FLO), ("FloWrapper::from_force_id", FLO)],
  specs=["flo"], level="proof", note=F_NOTE + "fits_version and cache_mut are not under contract. "),

 dict(id="I01", title="An identifier survives being printed and read, and nonsense is refused",
  statement="A text is read as an identifier exactly if it consists of an even number of at most 64 hexadecimal digits; the identifier then has exactly these bytes, followed by zeros. Any other text is answered with an error, never with a crash. An identifier which is printed in full, or stored, is read back as the same one.",
  over=["inputs"], forall="every text, every identifier",
  why="Tests read a few two-digit texts; texts from the command line of odd length did in fact crash.",
  files=[IDS], mechanism=[("U256::from_str", IDS), ("U256::fmt", IDS)],
  specs=["nodeids"], level="proof", note=I_NOTE),
 dict(id="I02", title="Hashes keep domains and parts apart",
  statement="Two hashes over a domain and a list of parts are equal only if the domain, the number of parts and every part are equal, wherever the boundaries between them are; the hash of plain data is never the hash of a domain with parts. The hash of a list or map of values depends on nothing but its content.",
  over=["inputs"], forall="every domain and every list of parts of any length",
  why="No test compares two hashes; a collision needs two inputs which are cut differently.",
  files=[IDS], mechanism=[("U256::hash_domain_parts", IDS), ("U256::hash_data", IDS), ("to_varint", IDS)],
  specs=["nodeids"], level="proof", note=I_NOTE),
 dict(id="I03", title="Lists of nodes are split, merged and compared exactly",
  statement="Removing the nodes of another list, or those which are not in it, keeps exactly the others in their order and gives back exactly the removed ones. Merging adds exactly the nodes which were not there. Whether a list contains any or all nodes of another one is told correctly.",
  over=["inputs"], forall="every pair of lists, including empty lists and repeated nodes",
  why="One test removes everything from a list.",
  files=[IDS], mechanism=[("NodeIDs::remove", IDS), ("NodeIDs::merge", IDS), ("NodeIDs::contains_any", IDS), ("NodeIDs::contains_all", IDS)],
  specs=["nodeids"], level="proof", note=I_NOTE),

 dict(id="G01", title="Of each category, the newest events are kept, and what is new is told apart",
  statement="A node keeps at most 50 text messages and 100 node infos, and of each node only its newest node info. An event which comes in takes the place of the oldest one if there are too many; one which is older than all which are kept, outdated, or already there changes nothing. Only an event which is kept, and was not there before, is reported as new.",
  over=["histories"], forall="every sequence of events of any category, source and time",
  why="Tests add up to five events; the limit was only looked at with events which come in order, and events which were dropped at once were reported as new, and announced, again and again.",
  files=[GC], mechanism=[("Events::insert", GC), ("Events::insert_unique", GC), ("Events::insert_simple", GC), ("Events::limit", GC), ("EventsStorage::add_event", GC)],
  specs=["gossip"], level="proof", note=G_NOTE),
 dict(id="G02", title="What is held is found, and nothing else",
  statement="The list of the identifiers has every event which is held once; asking for events by identifier gives exactly the ones which are held, each unaltered; an event is stored under its own identifier, so that two events are never taken for the same one.",
  over=["histories", "inputs"], forall="every set of events, every list of identifiers asked for",
  why="Tests look up one event after adding it.",
  files=[GC], mechanism=[("EventsStorage::event_ids", GC), ("EventsStorage::get_events_by_ids", GC), ("EventsStorage::event", GC), ("EventsStorage::events", GC)],
  specs=["gossip"], level="proof", note=G_NOTE),
 dict(id="G03", title="News spread to everyone but their source, and answers are what was asked for",
  statement="Events which are new are announced, by identifier, to every connected node but the one they came from, leaving out the ones made by that node, and handed to the application once. Of an announcement, exactly the events which are neither held nor already asked for are asked for, from the node which announced them; a request is answered with exactly the events which are held. Newly connected nodes are asked for their lists. All events survive a restart.",
  over=["histories", "schedules", "crash_points"], forall="every sequence of messages from any nodes, with a restart anywhere",
  why="Tests exchange one or two events between three nodes which behave.",
  files=[GI, GC], mechanism=[("Intern::messages", GI), ("Intern::send_events", GI), ("Intern::node_list", GI), ("Intern::filter_known_events", GI), ("Intern::store", GI), ("EventsStorageSave::from_str", GC)],
  specs=["gossip"], level="proof", note=G_NOTE),

 dict(id="R01", title="A node is in one list only, and only free known nodes are dialed",
  statement="No node is connected or connecting twice, or both at once, and every such node is known. The module asks for connections only to nodes which are known and neither connected nor connecting, to each of them once; the node itself is left out of the list of the signalling server. What the network reports moves a node to exactly the list it belongs to.",
  over=["histories"], forall="every sequence of messages from the network, the server and the application",
  why="Tests make three calls on lists of four nodes.",
  files=[RC, RI, RN], mechanism=[("RandomStats::connect", RC), ("RandomStats::connecting", RC), ("RandomStats::disconnect", RC), ("RandomStats::choose_new", RC), ("Intern::messages", RI), ("Nodes::add_new", RN)],
  specs=["random"], level="proof", note=R_NOTE),
 dict(id="R02", title="As many connections as are needed, and the oldest go first",
  statement="After each event which may change the connections, at least half of the needed connections (twice the logarithm of the number of known nodes) are there or asked for, unless there are no more nodes; of its own, a node never goes beyond what is needed, and adds at most one connection every tenth tick beyond the half. Removing the oldest or newest nodes removes exactly these.",
  over=["histories"], forall="every sequence of messages, every list of nodes with any ages",
  why="Tests take lists which are already sorted by age; removing the nodes of a given age in fact removed others.",
  files=[RC, RI, RN], mechanism=[("RandomStats::fill_up", RC), ("RandomStats::choose_new", RC), ("Intern::fill_connection", RI), ("Nodes::remove_oldest_n", RN), ("Nodes::remove_newest_n", RN), ("Nodes::remove_oldest_ticks", RN)],
  specs=["random"], level="proof", note=R_NOTE),
 dict(id="R03", title="Messages pass to and from connected nodes only, unaltered",
  statement="A message of a module is sent to a node exactly if it is connected, packed so that the other side unpacks the same message; a message from a node is handed on unaltered, with its sender, and a message for another module or which cannot be read is dropped. What is announced as connected is exactly the list of the connected nodes, with their infos. A node which fails, or asks for it, is disconnected.",
  over=["histories"], forall="every sequence of messages, every content",
  why="Tests do not send a message through this module to a node which is not connected.",
  files=[RI, RC, RM], mechanism=[("Intern::msg_rand", RI), ("Intern::msg_net", RI), ("Intern::network_msg", RI), ("Intern::connected_msg", RI), ("RandomStats::get_connected_info", RC), ("NetworkWrapper::wrap_yaml", RM), ("NetworkWrapper::unwrap_yaml", RM)],
  specs=["random"], level="proof", note=R_NOTE),
 dict(id="N01", title="Only who signs the challenge of its connection is taken for a node",
  statement="The signalling server takes a connection for a node only after a message which carries the signature, by the key that the node's identifier is made of, of the challenge this very connection got when it began; each challenge counts once and is new. Anything else, whatever it claims, has no effect. A node which proves itself is reported once, and a former connection of the same node loses its place and is told.",
  over=["histories", "inputs"], forall="every sequence of messages, well formed or not, on any number of connections",
  why="Tests only announce honest nodes; a key of the wrong length made the server panic.",
  files=[NS, NC], mechanism=[("SignalServer::ws_announce", NS), ("SignalServer::msg_ws_connect", NS), ("NodeInfo::verify", NC), ("NodeInfo::get_id", NC), ("SignalServer::msg_ws_process", NS)],
  specs=["signal"], level="proof", note=N_NOTE),
 dict(id="N02", title="Setup messages reach the other node, and only it",
  statement="A message for setting up a connection is handed on unaltered, once, to the connection of the other node it names, and only if the sender proved to be one of the two nodes; otherwise nothing is sent to anybody.",
  over=["histories", "inputs"], forall="every sequence of messages on any number of connections, every pair of nodes named",
  why="Tests have two nodes, which are the ones named.",
  files=[NS, PM], mechanism=[("SignalServer::ws_peer_setup", NS), ("PeerInfo::get_remote", PM), ("SignalServer::send_msg_node", NS)],
  specs=["signal"], level="proof", note=N_NOTE),
 dict(id="N03", title="The nodes which are listed are the ones which are connected",
  statement="A list sent by the signalling server holds nothing but nodes which proved themselves and are still there, each once, and all of them unless a maximum is configured; every other node is told when a node comes. A node is dropped when its connection ends or is silent for the configured number of minutes, not before, and leaves nothing behind.",
  over=["histories", "configurations"], forall="every sequence of messages, disconnections and minutes, every configured time and maximum",
  why="No test lets a minute pass; with a time of zero minutes the counter underflowed.",
  files=[NS], mechanism=[("SignalServer::ws_list_ids", NS), ("SignalServer::remove_node", NS), ("SignalServer::msg_in_timer", NS), ("SignalServer::msg_wss", NS), ("SignalServer::ws_announce", NS)],
  specs=["signal"], level="proof", note=N_NOTE),
 dict(id="N04", title="A node is reported as connected and disconnected in turn",
  statement="The application hears that a node is connected exactly when the first of its two directions comes up, and that it is disconnected exactly when the last one goes or is given up; never twice in a row, and never about another node.",
  over=["histories", "schedules"], forall="every sequence of state changes of the two directions of any nodes, and of requests",
  why="Tests see a connection come up once in one direction.",
  files=[NN], mechanism=[("Intern::msg_rtc", NN), ("Intern::msg_ws", NN), ("Intern::connect", NN), ("Intern::disconnect", NN), ("Intern::connection_state_set", NN), ("Intern::connected_only", NN)],
  specs=["netintern"], level="proof", note=N_NOTE),
 dict(id="N05", title="What passes the network goes to and comes from the node it names",
  statement="A message for a node goes to this node, unaltered, after a connection was asked for if there is none. A message which comes in is handed on with the node it came from. A challenge is answered with this node's own signature of it. Setup messages name both nodes rightly in each direction; the ones which do not concern this node, and anything which cannot be read or which no node may send, are dropped.",
  over=["histories", "inputs"], forall="every sequence of messages from the application, the signalling server and other nodes",
  why="Tests send one message between two nodes; some messages made a node panic.",
  files=[NN, PM], mechanism=[("Intern::messages", NN), ("Intern::msg_net", NN), ("Intern::msg_wrapper", NN), ("Intern::msg_rtc", NN), ("Intern::msg_ws", NN), ("PeerInfo::get_direction", PM)],
  specs=["netintern"], level="proof", note=N_NOTE),
 dict(id="N06", title="The websocket server keeps its connections apart",
  statement="A message for a connection goes to the very connection which was announced under this number, and what comes in carries the number of the connection it came from; a number is never used again. A stranger who fails the handshake, a connection which closes, or one which is closed, changes nothing for the others, nor for the program.",
  over=["histories", "schedules", "fault_sequences"], forall="every sequence of connections, failed handshakes, closes and messages",
  why="The test has two connections which stay; one lost connection made all later messages go to the wrong ones.",
  files=[WS, "flarch/src/web_rtc/libc/web_socket_client.rs"], mechanism=[("WebSocketServer::new", WS), ("WebSocketServer::messages", WS), ("WSConnection::loop_read", WS)],
  specs=["wsserver"], level="proof", note=W_NOTE),
dict(id="T01", title="A text cut into packets comes out whole, whatever the order of its packets",
  statement="Every text which is sent to a node, of whatever length and whatever characters, is cut into packets which give exactly this text again on the other side: once, when the last of its packets comes in, whatever their order, and however packets of other texts come in between. What is no packet, or a packet of nobody, changes nothing for the other texts and stops nothing.",
  over=["inputs", "schedules"], forall="every text, every order of the packets of any number of texts, every foreign packet",
  why="The tests cut letters and digits only; some characters made a text disappear, and a foreign packet could stop the node.",
  files=[NCN], mechanism=[("Packet::split_msg", NCN), ("PacketCollector::new_packet", NCN), ("PacketCollector::new_packet_str", NCN)],
  specs=["nodeconn"], level="proof", note=T_NOTE),
dict(id="T02", title="Texts to a node wait for a connection, and go out once and in order",
  statement="The texts given to the connection of a node are sent in their order, each of their packets exactly once: over the outgoing connection if it is open, else over the incoming one, else they wait and go out with the next text or connection. Each connection, disconnection, state and setup message is told with its direction, and a connection which broke is reset and counts as closed.",
  over=["histories", "schedules"], forall="every sequence of texts, setups, state changes and failures of both connections",
  why="The tests never open and close both connections while texts wait.",
  files=[NCN], mechanism=[("NodeConnection::send", NCN), ("NodeConnection::send_queue", NCN), ("NodeConnection::msg_in", NCN), ("NodeConnection::msg_conn", NCN), ("NodeConnection::messages", NCN)],
  specs=["nodeconn"], level="proof", note=T_NOTE),
dict(id="K05", title="The routing module passes every message on, up, or drops it as its kind asks",
  statement="A message which comes from a node is told to the application with its sender when this node is its destination, its key is nearest here, or it is a broadcast or neighbour message; else it goes unchanged, with origin, destination and key, to one node the table names as next hop, and to nobody if there is none. The application's own messages are packed and sent likewise, broadcasts to each node in use exactly once. Pings are answered to who sent them, nodes named by others are pinged, a tick pings what the table asks and reports the current nodes.",
  over=["histories", "inputs", "configurations"], forall="every sequence of messages of nodes and the application, node lists, disconnections and ticks",
  why="The tests run a few fixed meshes; a message which is told twice, to the wrong node, or with a wrong sender needs particular tables.",
  files=[DI, KAD], mechanism=[("Intern::process_node_message", DI), ("Intern::msg_dht", DI), ("Intern::msg_network", DI), ("Intern::tick", DI), ("Intern::message_closest", DI), ("Intern::message_direct", DI), ("Intern::closest_or_connected", DI)],
  specs=["dhtrouter"], level="proof", note=DR_NOTE),
 dict(id="X01", title="A module hears of its nodes in order, and of its own messages only",
  statement="Through the router a module is told that a node is connected before it gets a message of it, exactly once until the node is told to be disconnected, and the lists of connected nodes it gets always are the nodes told so far. Messages go to the node they are sent to and come from the node they are told of, unchanged; a packed message is read back as it was by the module it was packed for, and by no other one.",
  over=["histories", "inputs"], forall="every sequence of connections, disconnections, node lists and messages, and every message",
  why="The tests connect two or three nodes once; messages of unknown nodes, repeated connections and foreign modules are not tried.",
  files=[RB, RM], mechanism=[("RouterNetwork::msg_net", RB), ("RouterNetwork::msg_router", RB), ("RouterRandom::translate_rnd_rtr", RB), ("RouterRandom::translate_rtr_rnd", RB), ("NetworkWrapper::unwrap_yaml", RM), ("NetworkWrapper::wrap_yaml", RM)],
  specs=["router"], level="proof", note=X_NOTE),
dict(id="B01", title="What is put in a broker reaches each of its listeners once, in order",
  statement="A message put in a broker reaches every handler exactly once and in order (except the one it says has handled it), every tap unless it says not to, and every translator; what handlers answer goes out in the same way. A tap nobody listens to any more is removed, and nothing else is; a subsystem never gets a number used before, and removing one leaves the others. A broker ends once all its copies are gone, and not before.",
  over=["histories", "schedules"], forall="every sequence of messages, subsystems added, removed and dropped, answers of handlers, and copies of a broker",
  why="The tests use one or two subsystems which stay; several taps which end, handlers which answer, and removed numbers are not combined.",
  files=[BR], mechanism=[("Intern::process_once", BR), ("Intern::send_tap_in", BR), ("Intern::send_tap_out", BR), ("Intern::process_handle_messages", BR), ("Intern::process_translate_in_messages", BR), ("Intern::subsystem_action", BR), ("Intern::get_msg", BR), ("Broker::remove_subsystem", BR)],
  specs=["broker"], level="proof", note=B_NOTE),
dict(id="B02", title="Linked brokers translate each message once, never in circles, and always settle",
  statement="A message is translated once for every linked broker, with the broker's number appended to its trail, and is never given on by a broker which its trail already names. Settling a broker ends once everything it waits for has been handled, also in linked brokers, for every shape of links and also when several of them settle at the same time; a settled broker has given on everything it got before.",
  over=["histories", "schedules", "configurations"], forall="every graph of linked brokers, every sequence of messages, and every order in which they settle",
  why="The tests link two or three brokers in a line and settle one at a time.",
  files=[BR], mechanism=[("Translator::emit_ti_to", BR), ("Translator::translate_input", BR), ("Translator::translate_output", BR), ("Translator::settle", BR), ("Intern::get_msg", BR), ("Broker::settle", BR), ("Broker::add_translator_link", BR)],
  specs=["broker"], level="proof", note=B_NOTE),
dict(id="W01", title="A page asked through the web proxy is the page the proxying node answers",
  statement="A request goes to exactly one connected node which offers the service, each in its turn and never the node itself; with no such node it fails. Its header and its parts come only from the node which was asked, complete and in order, until this node says that it is done or failed. The proxying node answers exactly who asked, with the status, the headers and the whole body it got, or with an error.",
  over=["histories", "schedules", "inputs"], forall="every sequence of node lists, requests and messages of other nodes, answered or not, and every page",
  why="The test fetches one page from one node; several requests at once, foreign answers, slow readers and failing pages are not tried.",
  files=[WPC, WPI, WPB, WPR], mechanism=[("WebProxyCore::handle_response", WPC), ("WebProxyCore::request_get", WPC), ("WebProxyCore::get_node", WPC), ("WebProxyCore::node_list", WPC), ("Intern::process_node_message", WPI), ("Intern::handle_response", WPI), ("Intern::start_request", WPI), ("Response::bytes", WPR), ("WebProxy::get", WPB)],
  specs=["webproxy"], level="proof", note=WP_NOTE),
dict(id="D01", title="A storage gives back exactly what was last stored under a key",
  statement="Reading a key gives exactly the text which was last stored under it, or nothing if it was never stored or is removed; storing or removing one key changes no other key. Copies of a storage see the same content. With files, this also holds after a restart, and a stop or a failure while a value is stored leaves the old value or the new one, never something in between.",
  over=["histories", "inputs", "crash_points"], forall="every sequence of calls on any copy, every key which makes a valid file name, every text, and a stop or a failing write anywhere",
  why="The tests store one value and read it back; a stop while writing is not tried, and left an empty or half-written value.",
  files=[DSM, DSL], mechanism=[("DataStorageTemp::get", DSM), ("DataStorageTemp::set", DSM), ("DataStorageTemp::remove", DSM), ("DataStorageTemp::clone_box", DSM), ("DataStorageFile::name", DSL), ("DataStorageFile::get", DSL), ("DataStorageFile::set", DSL), ("DataStorageFile::remove", DSL)],
  specs=["datastore"], level="proof", note=D_NOTE),
 dict(id="I04", title="A node keeps its identity, and others see the same one",
  statement="The identifier of a node comes from its public key alone, and a signature is accepted only if the node with this key made it. A stored configuration is read back as the same identity, name and modules, also from the first version of the format; a node which starts again with a storage which can be read has the identity it had, and only one with nothing readable stored makes up a new one, and stores it. What others read of a node's information is the same key, name, client and modules, and what cannot be read is an error.",
  over=["inputs", "histories"], forall="every configuration, every name, every stored text and every message with a node's information, and every number of restarts",
  why="Tests read back one configuration of each version; a message which cannot be read ended the node which received it.",
  files=[NC, NODE], mechanism=[("NodeInfo::get_id", NC), ("NodeInfo::verify", NC), ("NodeInfo::decode", NC), ("NodeInfo::encode", NC), ("NodeConfig::new", NC), ("NodeConfig::encode", NC), ("NodeConfig::decode", NC), ("NodeConfig::sign", NC), ("Node::get_config", NODE), ("Node::set_config", NODE)],
  specs=["nodeconfig"], level="proof", note=ID_NOTE),
 dict(id="C01", title="Each node has one connection, and what it says is shown as this node",
  statement="A message to a node, or the wish to connect to it, makes the one connection of this node if there is none, and goes to this connection only, in order; a disconnection goes to the connection if there is one. No other connection is made, changed or asked anything. Everything a connection says is shown with the identifier of the node it belongs to. If a connection cannot be made, the others go on.",
  over=["histories", "schedules"], forall="every sequence of messages to and from any number of nodes, with connections which cannot be made",
  why="Tests connect two nodes once.",
  files=[RTC], mechanism=[("WebRTCConn::ensure_connection", RTC), ("WebRTCConn::try_send", RTC), ("WebRTCConn::messages", RTC), ("WebRTCConn::new", RTC)],
  specs=["webrtcconn"], level="proof", note=C_NOTE),
 dict(id="V01", title="A page is found by its path, and has the path under which it is found",
  statement="A path is looked up part by part, from the root: each part is found among the children of the page before, and their cuckoos, and the first one with this name is taken; what is not found is an error. The full path of a blob is made of the names of its first parents; it is an error if one of them has no name, is not known, or the parents form a loop. Names, parents and children of a blob change one at a time, as asked.",
  over=["inputs", "histories"], forall="every set of pages and tags with any names, parents, children and cuckoos, also those other nodes made up, and every path",
  why="Tests look up four paths in one tree; a loop of parents, which any node can publish, ended the process.",
  files=[RV, BLOB], mechanism=[("RealmStorage::get_path_internal", RV), ("RealmStorage::get_path", RV), ("RealmView::get_full_path_blob", RV), ("RealmView::get_full_path_id", RV), ("RealmView::get_blob_path_family", RV), ("RealmView::get_page_from_path", RV), ("BlobFamily::add_parent", BLOB), ("BlobFamily::rm_child", BLOB), ("BlobPath::get_path", BLOB)],
  specs=["realmview"], level="proof", note=V_NOTE),
 dict(id="V02", title="What is read is what is stored, and conditions are resolved to it",
  statement="What is read after storing a Flo is not older than it, as both go the same way. Reading a Flo gives the Flo of this realm with this identifier and of the type asked, or an error after the time limit; the same holds for cuckoos, realms and lists. A condition is resolved with what is stored in its realm: a verifier is the one with this identifier, a badge is in a version which is accepted, and not inside of itself; everything else is not available and cannot be fulfilled. Resolving always ends.",
  over=["inputs", "histories", "schedules"], forall="every condition, every set of stored verifiers and badges, also forged ones and loops other nodes made up, and every order of answers",
  why="Tests read back single Flos on one thread; forged verifiers, old badge versions, loops of badges, and two answers at once are never tried.",
  files=[DSB, CRY], mechanism=[("DHTStorage::store_flo", DSB), ("DHTStorage::get_flo", DSB), ("DHTStorage::get_flo_timeout", DSB), ("DHTStorage::get_flos", DSB), ("DHTStorage::get_cuckoos", DSB), ("DHTStorage::get_realm_ids", DSB), ("DHTStorage::send_wait_timeout", DSB), ("DHTStorage::wait_tap", DSB), ("DHTStorage::convert", DSB), ("DHTStorage::convert_badges", DSB), ("FloWrapper::badge_link", CRY)],
  specs=["dhtstorage"], level="proof", note=V2_NOTE),
 dict(id="V03", title="What is written through a view is stored, and the parents name their pages",
  statement="Creating a page or a tag stores it as asked, and the view has it; the parent names the new page as one more child. Changing a page stores what the change makes of it, in its next version and signed for its own condition; its new parents name it as a child, and those it left don't anymore, wherever the signers may sign for the parent; all other pages stay as they are. A service of the realm points to the page it was set to. What may not be signed is refused and changes nothing. A view keeps everything under its own identifier, and what it reads is what the storage shows: a new view starts at the services of its realm, an updated one has every page it knew in the stored version, and cuckoos are those the storage names, each once.",
  over=["inputs", "histories"], forall="every sequence of pages, tags, changes and services with any conditions, parents, cuckoos and signers",
  why="Tests create four pages with one signer; changed parents, several signers, and parents who may not be signed for are never tried.",
  files=[RV], mechanism=[("RealmView::create_http_cuckoo", RV), ("RealmView::create_tag_cuckoo", RV), ("RealmView::update_page", RV), ("RealmView::update_child_links", RV), ("RealmView::set_realm_service", RV), ("RealmView::store_page", RV), ("RealmView::new_from_realm", RV), ("RealmView::new_first", RV), ("RealmView::update_all", RV), ("RealmStorage::update_cuckoos", RV), ("RealmStorage::update_blobs", RV), ("RealmViewBuilder::build", RV)],
  specs=["realmwrite"], level="proof", note=V3_NOTE),
 dict(id="S06", title="A node only keeps Flos of realms it accepts, and answers with what it holds",
  statement="A Flo only ever changes the realm it belongs to, which is created only from a realm Flo of an accepted realm; accepted realms only grow by those the system names. A Flo which was taken is sent on, and a cuckoo is announced to the node of its parent. A request is answered to who asked, with exactly the realms, Flos with their cuckoos, or lists held here that it asks for, and not at all if there is nothing; a neighbour is asked only for accepted realms and wanted Flos. What another node answers is kept and told to the application.",
  over=["histories", "inputs", "configurations"], forall="every sequence of messages of the application, neighbours and other nodes, and every configuration of accepted realms",
  why="The tests follow a few fixed exchanges with one realm; foreign realms, unknown Flos and answers to others are not compared.",
  files=[SI, CORE], mechanism=[("Messages::upsert_flo", SI), ("Messages::create_realm", SI), ("Messages::store_flo", SI), ("Messages::msg_routing", SI), ("Messages::msg_dest", SI), ("Messages::msg_neighbour", SI), ("Messages::msg_dht_storage", SI), ("Messages::msg_dht_router", SI), ("MessageNeighbour::to_neighbour", SI), ("DHTConfig::accepts_realm", CORE), ("RealmStorage::get_all_flo_cuckoos", CORE)],
  specs=["dhtmsgs"], level="proof", note=SI_NOTE),
 dict(id="S07", title="What a node stores is there again after a restart",
  statement="After every message the DataStorage holds all realms, Flos, cuckoo links and sizes the node has, so that a node which starts again from it has exactly what it had before.",
  over=["crash_points", "histories"], forall="every sequence of messages with a restart after any of them",
  why="The only test which restarts stores one Flo before; what is changed by messages of other nodes is not looked at.",
  files=[SI], mechanism=[("Messages::new", SI), ("Messages::store", SI), ("Messages::upsert_flo", SI), ("Messages::msg_routing", SI), ("Messages::msg_dest", SI), ("Messages::msg_neighbour", SI)],
  specs=["dhtmsgs"], level="proof", note=SI_NOTE),
]
