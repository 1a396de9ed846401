import json
def P(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    return d
API=["CreateGroup / GroupFromWelcome / Group.CreateWelcome / Group.UnmarshalAndProcessMessage / Group.CreateApplicationMessage"]
L=[]
L.append(P("C01","All members of a group agree after any history of invites and messages",
 "After any sequence of creating a group, inviting batches of new members, joining by Welcome and processing every issued commit, all members are in the same epoch: an application message created by any member is decrypted by every other member to exactly the bytes that were sent. Every commit and every Welcome that the library issues is accepted by every member or invitee it was made for, whoever of the members issued it. Nobody outside the member set is needed and no ordering of message traffic between two commits changes the outcome.",
 ["histories","inputs"],"any number of members and batches, any inviter, any cipher suite that reports itself supported, any group id, identity and payload bytes and sizes, any interleaving of application messages",
 "The tests run one fixed two-member scenario per cipher suite; they never let an invited member invite others, never invite in batches, never grow the tree past one level and only use one payload.",
 ["group.go","tree.go","key_schedule.go","secret_tree.go"],
 [("commit creation and processing","group.go CreateWelcome, processCommit"),("joining","group.go GroupFromWelcome, groupFromSecrets"),("tree growth","tree.go add"),("epoch key schedule","key_schedule.go")],API,
 [("Group","tree, context, transcript hash, epoch and init secrets of one member","group.go Group")]))
L.append(P("C02","Everything the library emits is valid RFC 9420 for an independent peer",
 "Every key package, Welcome, commit and application message produced by the library is accepted, decrypted and verified by an independent RFC 9420 implementation, which ends in exactly the same epoch (same tree hash, transcript hash, epoch secret) as the library, also when it deletes each message key after use as the RFC demands. Signatures, MACs, ciphertexts and references produced cover exactly the structures the RFC says they cover.",
 ["histories","inputs"],"any group shape (including trees with blanks, parent nodes and unmerged leaves left by other members' commits), any cipher suite that reports itself supported, any group id, identity and payload",
 "The existing tests check stored vectors in the receiving direction; what the library sends is only ever read back by the library itself, so a consistent deviation on both sides passes.",
 ["group.go","framing.go","key_package.go","tree.go","key_schedule.go","secret_tree.go","ciphersuite.go"],
 [("commit and Welcome creation","group.go CreateWelcome"),("message protection","framing.go encryptPrivateMessage, group.go encryptPrivateMessage"),("key package creation","key_package.go GenerateKeyPairPackage")],API+["KeyPackage.Bytes / GenerateRef","Welcome.Bytes"]))
L.append(P("C03","Every valid commit by another member is accepted and leads to the right epoch",
 "A member that receives a commit made by a conforming peer under RFC 9420 from its current epoch - any mix of Add, Update, Remove and GroupContextExtensions proposals, inline or by reference to received proposals, with or without an update path, as public or private message - accepts it and ends in exactly the epoch the peer is in. This holds for every position of member and committer in every reachable tree, again and again over the life of the group.",
 ["histories","inputs"],"all histories of valid commits and proposals by conforming members; tree shapes with blanks, unmerged leaves, growth and truncation; all supported cipher suites",
 "The stored passive-client vectors contain a fixed set of a few histories and shapes; the property is about every reachable tree and every pair of positions in it.",
 ["group.go","tree.go","tree_math.go","proposal.go","key_schedule.go"],
 [("commit processing","group.go processCommit"),("proposal application","tree.go apply/add/update/remove"),("path processing","tree.go mergeUpdatePath, decryptPathSecrets"),("filtered direct paths and resolutions","tree.go filteredDirectPath, resolve")],["Group.UnmarshalAndProcessMessage","Group.CreateApplicationMessage"],
 [("ratchet tree","public keys of all members and intermediate nodes","group.go Group.tree"),("private tree","HPKE private keys this member holds","group.go Group.privTree")]))
L.append(P("C04","A member can join through every valid Welcome and then takes full part",
 "For every Welcome that a conforming peer creates for a key package of this library, joining succeeds and yields the peer's epoch: the new member's messages are readable by the others, it reads theirs, and it can follow every later valid commit, including commits whose path secrets are only encrypted to intermediate nodes it learned from the Welcome. This holds with or without a path secret in the Welcome, for any position of joiner and inviter, and for trees with blank nodes and unmerged leaves.",
 ["histories","inputs"],"all tree shapes reachable by valid histories, any joiner and inviter position, one or many joiners per Welcome, optional unknown GroupInfo extensions, all supported cipher suites",
 "Vectors hold a handful of Welcomes; most have shallow trees, so the derivation of several private keys from a path secret over a filtered path is hardly exercised.",
 ["group.go","tree.go","tree_math.go","key_schedule.go"],
 [("joining","group.go GroupFromWelcome, groupFromSecrets"),("path secret processing","group.go processPathSecret"),("common ancestor","tree_math.go commonAncestor")],["GroupFromWelcome","UnmarshalWelcome","Group.UnmarshalAndProcessMessage"]))
L.append(P("C05","Tampered or forged messages are rejected",
 "A message whose bytes differ from what a current member produced, or that is made without the signing key of the member it claims to come from, or whose signature, membership tag, confirmation tag, sender data, authenticated data or padding is not right for its content, is rejected with an error and yields no application data. This includes forgeries by insiders who know all group secrets but not the victim's signing key.",
 ["inputs","histories"],"every single-bit and structural change of every message kind, every claimed sender, every wrong-key signature, in any reachable group state",
 "Tests feed only honest messages; a missing verification step accepts all of them just as well.",
 ["group.go","framing.go","ciphersuite.go"],
 [("public message verification","group.go verifyPublicMessage"),("private message verification","group.go processPrivateMessage, framing.go decryptContent"),("commit confirmation","group.go processCommit")],["Group.UnmarshalAndProcessMessage"]))
L.append(P("C06","Operations that fail or are not committed leave the group unchanged",
 "When processing a message fails, or when a commit is created but never processed, the group continues exactly as if the operation had not happened: it stays in the same epoch, agrees with the other members, and accepts the next valid message or commit. Creating several alternative commits and then processing any one of them (or another member's) works.",
 ["histories","fault_sequences"],"any valid history interleaved with any number of rejected messages (garbage, forged, stale, invalid commits failing at any step) and of created-but-dropped commits",
 "The tests never continue using a group after an error, and never create a commit without processing it.",
 ["group.go","tree.go"],
 [("state is replaced only at the end of commit processing","group.go processCommit"),("tree copies","tree.go copy, add")],API))
L.append(P("C07","No message, Welcome or key package can crash the library or exhaust memory",
 "Decoding or processing any byte string - random, mutated from valid traffic, or built by a malicious group member or inviter with valid signatures and MACs but absurd contents - returns a value or an error. It never panics, never hangs, and never allocates memory out of proportion to the input size.",
 ["inputs","histories"],"arbitrary bytes into every public decoding and processing entry point, in any group state; authenticated insider messages with out-of-range indices, wrong node kinds, unknown cipher suites, malformed public keys, oversized lengths, inconsistent trees",
 "Tests only feed well-formed stored vectors.",
 ["mls.go","framing.go","group.go","tree.go","key_package.go","ciphersuite.go","secret_tree.go"],
 [("length and range checks in decoding","mls.go readOpaqueVec, readVector, readVarint"),("tree lookups","tree.go get, getLeaf"),("signature verification of untrusted keys","ciphersuite.go")],["UnmarshalKeyPackage","UnmarshalWelcome","GroupFromWelcome","Group.UnmarshalAndProcessMessage","KeyPackage.GenerateRef"]))
L.append(P("C08","Encoding is canonical: decode and encode are inverse, bad encodings are refused",
 "Every structure decodes from its encoding to an equal value, and re-encoding what was decoded gives back the same bytes. Truncated input, trailing bytes, non-minimal length prefixes, unknown enum values and wrong vector lengths are refused rather than silently accepted; unknown values inside capability lists and unknown extensions are preserved.",
 ["inputs"],"all values of every wire structure (key packages, Welcomes, messages, proposals, commits, trees, group secrets) including boundary lengths 0, 63/64, 16383/16384, and all truncations and extensions of valid encodings",
 "The tests decode one stored instance of each structure and never a malformed or truncated one.",
 ["mls.go","framing.go","group.go","tree.go","proposal.go","key_package.go","crypto.go","key_schedule.go"],
 [("variable-size vectors","mls.go readVarint, writeVarint, readOpaqueVec, readVector"),("per-type codecs","marshal/unmarshal methods in all files")],["UnmarshalKeyPackage / KeyPackage.Bytes","UnmarshalWelcome / Welcome.Bytes","Group.UnmarshalAndProcessMessage"]))
L.append(P("C09","Commits that break the proposal-list and path rules are rejected",
 "A commit whose proposal list or update path is not allowed by RFC 9420 section 12 is rejected by every member even if it is correctly signed and consistently computed: duplicate or conflicting updates and removes, removing the committer or a non-existing member, updates by the committer, duplicate adds, references to proposals never received, a missing but required path, a path of the wrong shape, repeated or reused path keys, path secrets not matching the published keys, a wrong leaf source, pre-shared keys the members do not have, or group context extensions that do not take effect or demand what a member does not support.",
 ["inputs","histories"],"every rule violated in isolation, by any committer, in any reachable tree, as public or private message, inline or by reference where applicable",
 "Tests contain only valid commits.",
 ["proposal.go","group.go","tree.go"],
 [("proposal list verification","proposal.go verifyProposalList, proposalListNeedsPath"),("reference resolution","group.go resolveProposals"),("path verification","group.go processCommit, tree.go mergeUpdatePath, decryptPathSecrets")],["Group.UnmarshalAndProcessMessage"]))
L.append(P("C10","Members with invalid key packages or leaf nodes are never admitted",
 "A commit that would bring an invalid leaf into the group - through Add, Update or the committer's path - is rejected by every member: wrong signature, signature over another group or position, wrong source kind, wrong version or cipher suite, credential not supported by all members, non-default extension not in its own capabilities, a capability missing that the group requires, expired lifetime, signature/encryption key already used by another member, or an update that keeps the member's encryption key. The same leaf without the defect is accepted.",
 ["inputs","histories"],"every defect in isolation, in Add, Update and path leaves, in any reachable group",
 "Tests contain only valid leaf nodes, and only check that valid ones verify.",
 ["tree.go","key_package.go","group.go"],
 [("leaf validation","tree.go leafNode.verify"),("key package validation","key_package.go KeyPackage.verify"),("commit processing","group.go processCommit")],["Group.UnmarshalAndProcessMessage"]))
L.append(P("C11","A joiner rejects any Welcome whose group state is not authentic and consistent",
 "Joining fails with an error when the Welcome was altered, was not made for this key package or cipher suite, its GroupInfo is not signed by the named member or carries a wrong confirmation tag, the ratchet tree does not match the tree hash, has invalid parent hashes, invalid leaf nodes, invalid unmerged-leaf lists, duplicate keys or a malformed shape, does not contain the joiner's own leaf, a member lacks a capability that the group requires, or the path secret does not match the tree. The same Welcome without the defect is accepted.",
 ["inputs","histories"],"every defect in isolation, built consistently by an inviter who controls all other keys, in any reachable group, plus all single-bit changes of the Welcome",
 "Tests only join from valid Welcomes.",
 ["group.go","tree.go"],
 [("GroupInfo verification","group.go groupFromSecrets"),("tree verification","tree.go verifyIntegrity, verifyParentHashes"),("own leaf","tree.go findLeaf")],["GroupFromWelcome"]))
L.append(P("C12","Only current members can read; outsiders, removed and future members cannot",
 "A party that has been removed, has not yet joined, or never was a member gets no plaintext from any message of an epoch it is not part of, even if it has all ciphertexts, Welcomes and commits and its own old state. A removed member cannot follow the commit that removes it, and a joiner cannot read messages from before its epoch.",
 ["histories","inputs"],"all histories with removals and joins, every message kind, every former, future and foreign member instance",
 "Tests never remove a member and never hand a message to a non-member.",
 ["group.go","tree.go","key_schedule.go","secret_tree.go"],
 [("commit secrets encrypted to the new tree only","tree.go decryptPathSecrets"),("epoch separation","group.go processPrivateMessage")],["Group.UnmarshalAndProcessMessage","GroupFromWelcome"]))
L.append(P("C13","Messages are bound to their group, epoch and sender",
 "A message is only accepted in the group and epoch it was made in and only as coming from its real sender: replays of commits, messages from earlier or later epochs, messages of a sibling group with the same members and even the same group id, and messages re-attributed to another member are rejected and change nothing. Proposals received in one epoch cannot be committed in another.",
 ["histories","inputs"],"all pairs of states and messages over histories of one or several groups that share members, ids and keys",
 "Tests have one group at a time and deliver each message once, in order, to the right group.",
 ["group.go","framing.go"],
 [("group id and epoch checks","group.go verifyPublicMessage, processPrivateMessage"),("context in signatures and tags","framing.go framedContentTBS"),("pending proposals cleared per epoch","group.go processCommit")],["Group.UnmarshalAndProcessMessage"]))
L.append(P("C14","Secrets and keys are fresh and never leak into the outputs",
 "Every generated key package has new, mutually distinct init, encryption and signature keys whose private parts match; every group starts from its own random secret; no two messages, commits or encrypted Welcome entries are equal, even for equal content, and no message key is used for two messages of an epoch. No private key, secret or plaintext appears in any message, Welcome or key package that the library emits.",
 ["histories","inputs"],"any sequence of generation, group creation, invitation and sending operations over any number of groups",
 "Tests look at single runs and never compare outputs with each other or with secrets.",
 ["key_package.go","group.go","framing.go","ciphersuite.go"],
 [("key generation","key_package.go GenerateKeyPairPackage"),("reuse guard","framing.go newSenderData"),("initial epoch secret","group.go CreateGroup")],API+["GenerateKeyPairPackage","KeyPairPackage.Private"]))
L.append(P("C15","Cryptographic primitives and key schedule match the RFC for every input",
 "For every defined cipher suite and every input in the domain of its primitives, labelled expansion, secret derivation, reference hashes, labelled signing and HPKE encryption, the key schedule, transcript hashes, exporter, PSK combination, secret-tree ratchets and sender-data keys give the values of an independent implementation of the RFC. Signatures, MACs and ciphertexts made under one label, context or key never verify or open under another.",
 ["inputs","configurations"],"all cipher suites, secrets, labels, contexts, lengths, generations, PSK lists; every change of one argument at a time",
 "Stored vectors fix one or a few values per suite and never try a mismatching label, context or key.",
 ["ciphersuite.go","key_schedule.go","secret_tree.go","framing.go"],
 [("labelled primitives","ciphersuite.go"),("key schedule","key_schedule.go"),("secret tree","secret_tree.go")],["package functions that the existing tests call; Group.CreateApplicationMessage"]))
L.append(P("C16","Tree index arithmetic agrees with an explicitly built tree",
 "For every tree size that MLS uses (2^d leaves) and every node, width, root, parent, sibling, children, direct path, copath, level and common ancestor are what they are in an explicitly linked complete binary tree.",
 ["inputs"],"every tree with up to thousands of leaves, every node; random nodes in trees up to 2^31 nodes",
 "The vectors list a few power-of-two sizes and do not cover paths and common ancestors.",
 ["tree_math.go"],[("tree math","tree_math.go")],["tree-math functions that the existing tests call; positions and path lengths seen through Group.UnmarshalAndProcessMessage"]))
L.append(P("C17","Ratchet tree operations, hashes and resolutions agree with a reference model",
 "For every sequence of adding, updating, removing members and merging update paths, the ratchet tree has exactly the nodes, encoding, tree hash, resolutions, filtered paths and parent-hash validity of an independent model of RFC 9420 section 7. Trees produced by valid operations always verify; a tree with any single node altered does not.",
 ["histories","inputs"],"all operation sequences up to dozens of members including blanks, unmerged leaves, growth and truncation; all single-node alterations",
 "Vectors contain a fixed list of single operations on stored trees.",
 ["tree.go","tree_math.go"],
 [("tree operations","tree.go add, update, remove, mergeUpdatePath"),("hashes","tree.go computeTreeHash, verifyParentHashes"),("resolution","tree.go resolve")],["ratchet-tree functions that the existing tests call; Welcomes and messages through the public API"]))
L.append(P("C18","Application messages of any conforming sender are delivered exactly",
 "An application message produced by a conforming member in the current epoch is delivered with exactly its payload - for every sender position, ratchet generation, arrival order, reuse guard, padding length, authenticated data and payload size including empty. Delivery has no side effects on the group.",
 ["inputs","histories"],"all generations in a practical range, any delivery order with gaps, all padding and payload sizes, any tree size and sender position, all supported cipher suites",
 "The library only ever sends without padding or authenticated data; vectors cover two generations of small trees.",
 ["group.go","framing.go","secret_tree.go"],
 [("decryption","group.go processPrivateMessage, framing.go decryptContent"),("ratchets","secret_tree.go")],["Group.UnmarshalAndProcessMessage"]))
L.append(P("C19","Groups do not share memory with the caller's buffers",
 "After a call returns, the caller may overwrite every byte slice it passed in or got back, without any effect on groups, key packages and Welcomes; and no call modifies a byte slice, key package or Welcome that the caller passed in.",
 ["histories","inputs"],"every byte slice that crosses the API, overwritten right after the call, over any history of operations",
 "Tests never modify a buffer after use.",
 ["mls.go","group.go","framing.go","key_package.go"],
 [("copying decoder","mls.go readOpaqueVec"),("encoding into new buffers","marshal functions")],API+["UnmarshalKeyPackage","UnmarshalWelcome"]))
L.append(P("C20","Exactly the referenced proposals take effect, attributed to their senders",
 "A commit applies exactly the proposals it lists, in the RFC's order of application, with proposals by reference attributed to the member who sent them. Received proposals that the commit does not reference have no effect, the order and number of received proposals does not matter, and no received proposal survives the epoch change.",
 ["histories","inputs"],"any set and order of received proposals (public or private, duplicates, from any member), any subset referenced in any order, mixed with inline proposals",
 "The vectors reference every proposal they deliver, one commit at a time.",
 ["group.go","proposal.go","tree.go"],
 [("proposal cache","group.go processProposal, resolveProposals"),("order of application","tree.go apply")],["Group.UnmarshalAndProcessMessage"]))
L.append(P("C21","A Welcome is addressed to exactly the invited key packages",
 "The references listed by a Welcome are, in order, exactly those of the invited key packages; references are stable under encoding, equal only for identical key packages, and computed as the RFC says. Each invitee can use the Welcome with its own key package and nobody can use it with any other key package or with a wrong private init key.",
 ["inputs","histories"],"any batch of invitees, any pair of invitee and key package, any mixture of private keys, before and after encoding",
 "Tests invite a single member and only look at its own reference.",
 ["group.go","key_package.go","ciphersuite.go"],
 [("references","key_package.go GenerateRef, Equal"),("addressing","group.go Welcome.NewMembers, findSecret")],["Welcome.NewMembers","KeyPackage.GenerateRef","KeyPackageRef.Equal","GroupFromWelcome"]))
L.append(P("C22","Key package lifetimes are enforced, and fresh key packages are usable",
 "A generated key package is valid from its creation for its whole advertised lifetime (weeks, not hours) and for no longer: until the end it can be invited and can join, after the end (or before the start) commits adding it and Welcomes whose tree contains it are refused. Lifetimes that are inverted, empty or longer than the accepted maximum of 90 days are refused at any time.",
 ["inputs","histories","configurations"],"all creation, invitation and join times, all lifetime bounds including 64-bit extremes, driven by a simulated clock",
 "Vectors are processed with time checks disabled and the one round-trip test finishes within a second.",
 ["tree.go","key_package.go","group.go"],
 [("lifetime check","tree.go lifetime.verify, leafNode.verify"),("default lifetime","key_package.go GenerateKeyPairPackage")],["GenerateKeyPairPackage","Group.UnmarshalAndProcessMessage","GroupFromWelcome"]))
L.append(P("C23","Group instances are independent of each other, also when used concurrently",
 "Operations on one group never influence another group, even when they share key packages, Welcomes, credentials or messages; using different groups from different goroutines at the same time is free of data races and gives each group the result it gives alone.",
 ["schedules","histories"],"any interleaving, sequential or concurrent, of operations on several group instances made from shared inputs",
 "Tests use a single goroutine and never make two groups from the same inputs.",
 ["group.go","tree.go","key_package.go","ciphersuite.go"],
 [("no shared mutable state","group.go, tree.go copy/add"),("read-only inputs","group.go CreateWelcome, GroupFromWelcome")],API))
L.append(P("C24","Invitations that other members would refuse are not issued",
 "Creating an invitation with a key package that may not be added - bad signature, wrong version, cipher suite or source, expired, init key equal to encryption key, unsupported credential or extension, a capability missing that the group requires, key already in the group or twice in the batch - returns an error and leaves the group as it was. Valid batches succeed and can be committed and joined.",
 ["inputs","histories"],"every defect in isolation at any place of a batch, in any reachable group",
 "Tests only invite one valid key package.",
 ["group.go","proposal.go","key_package.go","tree.go"],
 [("validity check before issuing","group.go CreateWelcome, proposal.go verifyProposalList, key_package.go KeyPackage.verify")],["Group.CreateWelcome","UnmarshalKeyPackage"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in L))
print(len(L))
