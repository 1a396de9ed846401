From 4360b7a6ae36e9b9de0b3a0e7d227474587c3ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:34 +0000
Subject: [PATCH 01/28] fix: derive path secrets along the whole filtered
 direct path when joining

The derived secret was shadowed in the loop, so every ancestor was checked
against the same path secret, and blank ancestors were dereferenced.
---
 group.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index d91fb76..8bc55bc 100644
--- a/group.go
+++ b/group.go
@@ -220,7 +220,11 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 }
 
 func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateKey, pathSecret []byte, nodeIndex nodeIndex) error {
-	nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, tree.get(nodeIndex).encryptionKey())
+	node := tree.get(nodeIndex)
+	if node == nil {
+		return fmt.Errorf("mls: path secret for blank node %v", nodeIndex)
+	}
+	nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, node.encryptionKey())
 	if err != nil {
 		return fmt.Errorf("failed to derive node %v private key from path secret: %v", nodeIndex, err)
 	}
@@ -233,12 +237,18 @@ func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateK
 			break
 		}
 
-		pathSecret, err := cs.deriveSecret(pathSecret, []byte("path"))
+		// Blank nodes aren't part of the signer's filtered direct path
+		node := tree.get(nodeIndex)
+		if node == nil {
+			continue
+		}
+
+		pathSecret, err = cs.deriveSecret(pathSecret, []byte("path"))
 		if err != nil {
 			return fmt.Errorf("failed to derive path secret: %v", err)
 		}
 
-		nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, tree.get(nodeIndex).encryptionKey())
+		nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, node.encryptionKey())
 		if err != nil {
 			return fmt.Errorf("failed to derive node %v private key from path secret: %v", nodeIndex, err)
 		}
-- 
2.43.0


From 4eff279f53bfb774cc432d659453a174a6bc31ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:04 +0000
Subject: [PATCH 02/28] fix: don't modify shared parent nodes when adding a
 leaf

ratchetTree.copy is shallow, so creating a Welcome or processing a commit that
fails later on added the new leaf to the unmerged leaves of the current tree.
---
 tree.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index a0eefbe..368ac8b 100644
--- a/tree.go
+++ b/tree.go
@@ -1042,9 +1042,15 @@ func (tree *ratchetTree) add(leafNode *leafNode) {
 		if !ok {
 			break
 		}
-		node := tree.get(p)
-		if node != nil {
-			node.parentNode.unmergedLeaves = append(node.parentNode.unmergedLeaves, li)
+		if n := tree.get(p); n != nil {
+			// The node may be shared with other copies of the tree
+			parentNode := *n.parentNode
+			unmergedLeaves := parentNode.unmergedLeaves
+			parentNode.unmergedLeaves = append(unmergedLeaves[:len(unmergedLeaves):len(unmergedLeaves)], li)
+			tree.set(p, &node{
+				nodeType:   nodeTypeParent,
+				parentNode: &parentNode,
+			})
 		}
 	}
 
-- 
2.43.0


From 3b7c04d183fa2563698eaed92f6e21adb0bd375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:39 +0000
Subject: [PATCH 03/28] fix: ignore newly added leaves when decrypting path
 secrets

Path secrets of a commit are not encrypted to the members added by the same
commit, so these must be left out of the resolution of the copath node.
---
 group.go |  4 ++--
 tree.go  | 30 +++++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/group.go b/group.go
index 8bc55bc..e5d3cc1 100644
--- a/group.go
+++ b/group.go
@@ -461,7 +461,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	newGroupCtx.epoch++
 
 	newTree := group.tree.copy()
-	newTree.apply(proposals, senders)
+	newLeaves := newTree.apply(proposals, senders)
 
 	newPrivTree := make([]hpkePrivateKey, len(newTree))
 	for i := range group.tree {
@@ -514,7 +514,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 		// TODO: update group context extensions
 
-		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, newPrivTree)
+		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, newLeaves, newPrivTree)
 		if err != nil {
 			return fmt.Errorf("failed to decrypt path secrets: %v", err)
 		}
diff --git a/tree.go b/tree.go
index 368ac8b..223f720 100644
--- a/tree.go
+++ b/tree.go
@@ -1012,7 +1012,7 @@ func (tree ratchetTree) findLeaf(node *leafNode) (leafIndex, bool) {
 	return 0, false
 }
 
-func (tree *ratchetTree) add(leafNode *leafNode) {
+func (tree *ratchetTree) add(leafNode *leafNode) leafIndex {
 	li := leafIndex(0)
 	var ni nodeIndex
 	found := false
@@ -1058,6 +1058,7 @@ func (tree *ratchetTree) add(leafNode *leafNode) {
 		nodeType: nodeTypeLeaf,
 		leafNode: leafNode,
 	})
+	return li
 }
 
 func (tree ratchetTree) update(li leafIndex, leafNode *leafNode) {
@@ -1214,7 +1215,12 @@ func (tree ratchetTree) mergeUpdatePath(cs CipherSuite, senderLeafIndex leafInde
 	return nil
 }
 
-func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, path *updatePath, privTree []hpkePrivateKey) ([]byte, error) {
+// decryptPathSecrets decrypts the path secrets of an update path and returns
+// the commit secret.
+//
+// newLeaves contains the leaves added by the commit: path secrets aren't
+// encrypted to them.
+func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, path *updatePath, newLeaves []leafIndex, privTree []hpkePrivateKey) ([]byte, error) {
 	senderNodeIndex := senderLeafIndex.nodeIndex()
 	recipientNodeIndex := recipientLeafIndex.nodeIndex()
 
@@ -1253,7 +1259,16 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 		panic("unreachable")
 	}
 
-	copathResolution := tree.resolve(copathNode)
+	isNewLeaf := make(map[nodeIndex]bool, len(newLeaves))
+	for _, li := range newLeaves {
+		isNewLeaf[li.nodeIndex()] = true
+	}
+	var copathResolution []nodeIndex
+	for _, ni := range tree.resolve(copathNode) {
+		if !isNewLeaf[ni] {
+			copathResolution = append(copathResolution, ni)
+		}
+	}
 	if len(updatePathNode.encryptedPathSecret) != len(copathResolution) {
 		return nil, fmt.Errorf("mls: invalid UpdatePathNode.encrypted_path_secret length")
 	}
@@ -1308,7 +1323,9 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 	return commitSecret, nil
 }
 
-func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) {
+// apply applies a list of proposals to the tree. It returns the indices of the
+// added leaves.
+func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) (newLeaves []leafIndex) {
 	// Apply all update proposals
 	for i, prop := range proposals {
 		if prop.proposalType == proposalTypeUpdate {
@@ -1326,7 +1343,10 @@ func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) {
 	// Apply all add proposals
 	for _, prop := range proposals {
 		if prop.proposalType == proposalTypeAdd {
-			tree.add(&prop.add.keyPackage.leafNode)
+			li := tree.add(&prop.add.keyPackage.leafNode)
+			newLeaves = append(newLeaves, li)
 		}
 	}
+
+	return newLeaves
 }
-- 
2.43.0


From 273527104c2d7df5a665235315caea4d404239ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:59 +0000
Subject: [PATCH 04/28] fix: reject messages with an out of range sender leaf
 index

---
 group.go | 11 +++++------
 tree.go  |  6 ++++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/group.go b/group.go
index e5d3cc1..363b8ea 100644
--- a/group.go
+++ b/group.go
@@ -312,7 +312,6 @@ func (group *Group) verifyPublicMessage(pubMsg *publicMessage) (*authenticatedCo
 		return nil, fmt.Errorf("mls: unsupported sender type: %v", pubMsg.content.sender.senderType)
 	}
 	senderLeafIndex := pubMsg.content.sender.leafIndex
-	// TODO: check tree length
 	senderNode := group.tree.getLeaf(senderLeafIndex)
 	if senderNode == nil {
 		return nil, fmt.Errorf("mls: blank leaf node for sender")
@@ -353,6 +352,11 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt sender data: %v", err)
 	}
 
+	signerNode := group.tree.getLeaf(senderData.leafIndex)
+	if signerNode == nil {
+		return nil, fmt.Errorf("mls: signer node is blank")
+	}
+
 	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
 	if err != nil {
 		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
@@ -383,11 +387,6 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt private message content: %v", err)
 	}
 
-	signerNode := group.tree.getLeaf(senderData.leafIndex)
-	if signerNode == nil {
-		return nil, fmt.Errorf("mls: signer node is blank")
-	}
-
 	authContent := privMsg.authenticatedContent(senderData, privContent)
 	if !authContent.verifySignature(signerNode.signatureKey, &group.groupContext) {
 		return nil, fmt.Errorf("failed to verify private message content signature: %v", err)
diff --git a/tree.go b/tree.go
index 223f720..a2e6769 100644
--- a/tree.go
+++ b/tree.go
@@ -679,7 +679,13 @@ func (tree ratchetTree) set(i nodeIndex, node *node) {
 	tree[int(i)] = node
 }
 
+// getLeaf returns the leaf node at the provided index.
+//
+// nil is returned for blank leaves and if the index is out of range.
 func (tree ratchetTree) getLeaf(li leafIndex) *leafNode {
+	if li >= leafIndex(tree.numLeaves()) {
+		return nil
+	}
 	node := tree.get(li.nodeIndex())
 	if node == nil {
 		return nil
-- 
2.43.0


From b73e742c0885415b59651308158f9ec61c1c1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:46 +0000
Subject: [PATCH 05/28] fix: verify the confirmation tag when processing a
 commit

---
 group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/group.go b/group.go
index 363b8ea..66e0cb3 100644
--- a/group.go
+++ b/group.go
@@ -550,6 +550,13 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		return fmt.Errorf("failed to extract epoch secret: %v", err)
 	}
 
+	confirmationKey, err := cs.deriveSecret(newEpochSecret, secretLabelConfirm)
+	if err != nil {
+		return fmt.Errorf("failed to derive confirmation key: %v", err)
+	} else if !authContent.auth.verifyConfirmationTag(cs, confirmationKey, newGroupCtx.confirmedTranscriptHash) {
+		return fmt.Errorf("mls: failed to verify confirmation tag")
+	}
+
 	newInitSecret, err := cs.deriveSecret(newEpochSecret, secretLabelInit)
 	if err != nil {
 		return fmt.Errorf("failed to erive init secret: %v", err)
-- 
2.43.0


From 693173de43824d089f03d1f1b439d96f8106000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:47 +0000
Subject: [PATCH 06/28] fix: reject remove proposals for a leaf which isn't a
 member

A Remove proposal whose leaf index was blank was silently accepted and an
index out of range caused a panic. An index of 2^31 or more wrapped around
and removed another member.
---
 group.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 66e0cb3..fca13b7 100644
--- a/group.go
+++ b/group.go
@@ -443,10 +443,15 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	}
 
 	for _, prop := range proposals {
-		if prop.proposalType == proposalTypeAdd {
+		switch prop.proposalType {
+		case proposalTypeAdd:
 			if err := prop.add.keyPackage.verify(&group.groupContext); err != nil {
 				return fmt.Errorf("failed to verify add proposal: %v", err)
 			}
+		case proposalTypeRemove:
+			if group.tree.getLeaf(prop.remove.removed) == nil {
+				return fmt.Errorf("mls: remove proposal references blank node")
+			}
 		}
 	}
 
-- 
2.43.0


From 987c348da1d9900dbe588cb900c52ce86a858abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:51 +0000
Subject: [PATCH 07/28] fix: check that all keys of an update path are unique

Keys in an update path were only compared with the leaf nodes of the tree.
Compare them with the parent nodes and with each other too.
---
 group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/group.go b/group.go
index fca13b7..b78e8a2 100644
--- a/group.go
+++ b/group.go
@@ -488,6 +488,11 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		// must change
 		signatureKeys, encryptionKeys := newTree.keys()
 		delete(signatureKeys, string(senderNode.signatureKey))
+		for _, node := range newTree {
+			if node != nil && node.nodeType == nodeTypeParent {
+				encryptionKeys[string(node.parentNode.encryptionKey)] = struct{}{}
+			}
+		}
 		err := commit.path.leafNode.verify(&leafNodeVerifyOptions{
 			cipherSuite:    cs,
 			groupID:        group.groupContext.groupID,
@@ -501,10 +506,12 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			return fmt.Errorf("failed to verify leaf node: %v", err)
 		}
 
+		encryptionKeys[string(commit.path.leafNode.encryptionKey)] = struct{}{}
 		for _, updateNode := range commit.path.nodes {
 			if _, dup := encryptionKeys[string(updateNode.encryptionKey)]; dup {
 				return fmt.Errorf("mls: encryption key in update path already used in ratchet tree")
 			}
+			encryptionKeys[string(updateNode.encryptionKey)] = struct{}{}
 		}
 
 		if err := newTree.mergeUpdatePath(cs, senderLeafIndex, commit.path); err != nil {
-- 
2.43.0


From 32200495f5e16849ddca748ed903d1ae3667aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:03 +0000
Subject: [PATCH 08/28] fix: count a credential type once per member

A member which lists the same credential type several times in its
capabilities was counted several times. The credential type could then be
considered as supported by all members when it is not.
---
 tree.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index a2e6769..9c4dc59 100644
--- a/tree.go
+++ b/tree.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"slices"
 	"time"
 
 	"golang.org/x/crypto/cryptobyte"
@@ -726,8 +727,10 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 		}
 
 		numMembers++
-		for _, ct := range node.capabilities.credentials {
-			supportedCredsCount[ct]++
+		for i, ct := range node.capabilities.credentials {
+			if !slices.Contains(node.capabilities.credentials[:i], ct) {
+				supportedCredsCount[ct]++
+			}
 		}
 	}
 
-- 
2.43.0


From 7832ec2b5aee44c9fec35f8ac70f55f758369c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:16 +0000
Subject: [PATCH 09/28] fix: validate the leaf nodes of add and update
 proposals

Leaf nodes which come into the group with an Add or Update proposal were
accepted without any check: their signature, lifetime, credential,
extensions and keys could be invalid. Also check that a new leaf node
supports the credential types which are already in use.
---
 group.go | 15 ++++++++++++++-
 tree.go  | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index b78e8a2..db62c2d 100644
--- a/group.go
+++ b/group.go
@@ -442,12 +442,18 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		return fmt.Errorf("failed to verify proposals: %v", err)
 	}
 
-	for _, prop := range proposals {
+	var updatedLeaves []leafIndex
+	for i, prop := range proposals {
 		switch prop.proposalType {
 		case proposalTypeAdd:
 			if err := prop.add.keyPackage.verify(&group.groupContext); err != nil {
 				return fmt.Errorf("failed to verify add proposal: %v", err)
 			}
+		case proposalTypeUpdate:
+			if prop.update.leafNode.leafNodeSource != leafNodeSourceUpdate {
+				return fmt.Errorf("mls: update proposal contains a leaf node with an invalid source")
+			}
+			updatedLeaves = append(updatedLeaves, senders[i])
 		case proposalTypeRemove:
 			if group.tree.getLeaf(prop.remove.removed) == nil {
 				return fmt.Errorf("mls: remove proposal references blank node")
@@ -466,6 +472,9 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 	newTree := group.tree.copy()
 	newLeaves := newTree.apply(proposals, senders)
+	if err := newTree.verifyLeaves(&group.groupContext, append(updatedLeaves, newLeaves...), now); err != nil {
+		return fmt.Errorf("failed to verify proposals: %v", err)
+	}
 
 	newPrivTree := make([]hpkePrivateKey, len(newTree))
 	for i := range group.tree {
@@ -537,6 +546,10 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		}
 	}
 
+	if err := newTree.verifyCreds(); err != nil {
+		return err
+	}
+
 	newGroupCtx.confirmedTranscriptHash, err = authContent.confirmedTranscriptHashInput().hash(cs, group.interimTranscriptHash)
 	if err != nil {
 		return fmt.Errorf("failed to hash confirmed transcript hash input: %v", err)
diff --git a/tree.go b/tree.go
index 9c4dc59..d97cea4 100644
--- a/tree.go
+++ b/tree.go
@@ -744,6 +744,46 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 	return supportedCreds
 }
 
+// verifyLeaves verifies leaf nodes which have been added to the tree or updated
+// by proposals.
+func (tree ratchetTree) verifyLeaves(ctx *groupContext, leaves []leafIndex, now func() time.Time) error {
+	supportedCreds := tree.supportedCreds()
+	for _, li := range leaves {
+		otherLeaves := tree.copy()
+		otherLeaves.set(li.nodeIndex(), nil)
+		signatureKeys, encryptionKeys := otherLeaves.keys()
+
+		err := tree.getLeaf(li).verify(&leafNodeVerifyOptions{
+			cipherSuite:    ctx.cipherSuite,
+			groupID:        ctx.groupID,
+			leafIndex:      li,
+			supportedCreds: supportedCreds,
+			signatureKeys:  signatureKeys,
+			encryptionKeys: encryptionKeys,
+			now:            now,
+		})
+		if err != nil {
+			return fmt.Errorf("leaf node at index %v: %v", li, err)
+		}
+	}
+	return nil
+}
+
+// verifyCreds verifies that all members support the credential types in use.
+func (tree ratchetTree) verifyCreds() error {
+	supportedCreds := tree.supportedCreds()
+	for li := leafIndex(0); li < leafIndex(tree.numLeaves()); li++ {
+		node := tree.getLeaf(li)
+		if node == nil {
+			continue
+		}
+		if _, ok := supportedCreds[node.credential.credentialType]; !ok {
+			return fmt.Errorf("mls: credential type %v used by leaf node not supported by all members", node.credential.credentialType)
+		}
+	}
+	return nil
+}
+
 func (tree ratchetTree) keys() (signatureKeys, encryptionKeys map[string]struct{}) {
 	signatureKeys = make(map[string]struct{})
 	encryptionKeys = make(map[string]struct{})
-- 
2.43.0


From b048d13505ae568b0fd8431730d039db0657f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:44 +0000
Subject: [PATCH 10/28] fix: validate key packages when creating a Welcome

CreateWelcome issued commits for key packages which other members must
refuse.
---
 group.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index db62c2d..fd0b5f1 100644
--- a/group.go
+++ b/group.go
@@ -654,6 +654,19 @@ func (group *Group) CreateWelcome(keyPkgs []KeyPackage) (*Welcome, []byte, error
 		}
 	}
 
+	senders := make([]leafIndex, len(proposals))
+	for i := range senders {
+		senders[i] = group.myLeafIndex
+	}
+	if err := verifyProposalList(proposals, senders, group.myLeafIndex); err != nil {
+		return nil, nil, fmt.Errorf("failed to verify proposals: %v", err)
+	}
+	for i := range keyPkgs {
+		if err := keyPkgs[i].verify(&group.groupContext); err != nil {
+			return nil, nil, fmt.Errorf("failed to verify key package: %v", err)
+		}
+	}
+
 	// TODO: check proposal list validity per section 12.2
 	commit := commit{proposals: proposalOrRefs}
 
@@ -661,7 +674,12 @@ func (group *Group) CreateWelcome(keyPkgs []KeyPackage) (*Welcome, []byte, error
 	newGroupCtx.epoch++
 
 	newTree := group.tree.copy()
-	newTree.apply(proposals, []leafIndex{group.myLeafIndex})
+	newLeaves := newTree.apply(proposals, senders)
+	if err := newTree.verifyLeaves(&group.groupContext, newLeaves, nil); err != nil {
+		return nil, nil, fmt.Errorf("failed to verify key packages: %v", err)
+	} else if err := newTree.verifyCreds(); err != nil {
+		return nil, nil, fmt.Errorf("failed to verify key packages: %v", err)
+	}
 
 	// TODO: only recompute parts of the tree affected by proposals
 	var err error
-- 
2.43.0


From 6239816b638f1eaf7c2e842761040517d6904bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:58 +0000
Subject: [PATCH 11/28] fix: don't panic when verifying with an invalid ECDSA
 public key

---
 ciphersuite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index c2edb39..d0ef625 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -365,6 +365,9 @@ func (scheme ecdsaSignatureScheme) Sign(signKey, message []byte) ([]byte, error)
 
 func (scheme ecdsaSignatureScheme) Verify(publicKey, message, sig []byte) bool {
 	x, y := elliptic.Unmarshal(scheme.curve, publicKey)
+	if x == nil {
+		return false
+	}
 	pub := &ecdsa.PublicKey{Curve: scheme.curve, X: x, Y: y}
 	return ecdsa.VerifyASN1(pub, scheme.hashSum(message), sig)
 }
-- 
2.43.0


From 3937356f6396d270b9ed7a5073dfc3fc7d80b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:55:02 +0000
Subject: [PATCH 12/28] fix: reject malformed ratchet trees

A ratchet tree with a parent node in place of a leaf (or vice-versa) made
the library panic. An empty tree and a tree which ends with a blank node
aren't valid either.
---
 tree.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tree.go b/tree.go
index d97cea4..ca9f86f 100644
--- a/tree.go
+++ b/tree.go
@@ -632,6 +632,15 @@ func (tree *ratchetTree) unmarshal(s *cryptobyte.String) error {
 				return err
 			}
 		}
+		if n != nil {
+			wantType := nodeTypeParent
+			if nodeIndex(len(*tree)).isLeaf() {
+				wantType = nodeTypeLeaf
+			}
+			if n.nodeType != wantType {
+				return fmt.Errorf("mls: invalid node type %d at index %d in ratchet tree", n.nodeType, len(*tree))
+			}
+		}
 		*tree = append(*tree, n)
 		return nil
 	})
@@ -639,6 +648,12 @@ func (tree *ratchetTree) unmarshal(s *cryptobyte.String) error {
 		return err
 	}
 
+	if len(*tree) == 0 {
+		return fmt.Errorf("mls: ratchet tree is empty")
+	} else if (*tree)[len(*tree)-1] == nil {
+		return fmt.Errorf("mls: last node of ratchet tree is blank")
+	}
+
 	// The raw tree doesn't include blank nodes at the end, fill it until next
 	// power of 2
 	for !isPowerOf2(uint32(len(*tree) + 1)) {
-- 
2.43.0


From 3b6f583287567458a7681fedaef03ad62d41d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:55:06 +0000
Subject: [PATCH 13/28] fix: reject unmerged leaves which are blank or out of
 range

---
 tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tree.go b/tree.go
index ca9f86f..2310ad7 100644
--- a/tree.go
+++ b/tree.go
@@ -830,6 +830,17 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 		return fmt.Errorf("mls: tree hash verification failed")
 	}
 
+	for i, node := range tree {
+		if node == nil || node.nodeType != nodeTypeParent {
+			continue
+		}
+		for _, unmergedLeaf := range node.parentNode.unmergedLeaves {
+			if tree.getLeaf(unmergedLeaf) == nil {
+				return fmt.Errorf("mls: unmerged leaf %v of the parent node at index %v is blank", unmergedLeaf, i)
+			}
+		}
+	}
+
 	if !tree.verifyParentHashes(cs) {
 		return fmt.Errorf("mls: parent hashes verification failed")
 	}
-- 
2.43.0


From 780de52c55e0680886c2be761d357e0654282f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:55:09 +0000
Subject: [PATCH 14/28] fix: don't panic on unknown or mismatched cipher suites

A Welcome or key package with an unknown cipher suite made the library
panic. The cipher suite of the group info was only checked after it had
been used.
---
 group.go       | 10 +++++++---
 key_package.go |  4 ++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index fd0b5f1..5685876 100644
--- a/group.go
+++ b/group.go
@@ -99,6 +99,10 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 
 // GroupFromWelcome creates a new group from a welcome message.
 func GroupFromWelcome(welcome *Welcome, keyPairPkg *KeyPairPackage) (*Group, error) {
+	if welcome.cipherSuite != keyPairPkg.Public.cipherSuite {
+		return nil, fmt.Errorf("mls: welcome cipher suite doesn't match key package")
+	}
+
 	keyPkgRef, err := keyPairPkg.Public.GenerateRef()
 	if err != nil {
 		return nil, fmt.Errorf("failed to generate key package ref: %v", err)
@@ -140,6 +144,9 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	if err != nil {
 		return nil, fmt.Errorf("failed to decrypt group info: %v", err)
 	}
+	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
+		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
+	}
 
 	rawTree := options.rawTree
 	if rawTree == nil {
@@ -163,9 +170,6 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	if !groupInfo.verifyConfirmationTag(groupSecrets.joinerSecret, pskSecret) {
 		return nil, fmt.Errorf("mls: failed to verify confirmation tag")
 	}
-	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
-		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
-	}
 
 	if err := tree.verifyIntegrity(&groupInfo.groupContext, options.now); err != nil {
 		return nil, fmt.Errorf("failed to verify ratchet tree integrity: %v", err)
diff --git a/key_package.go b/key_package.go
index 389dba9..9ee4879 100644
--- a/key_package.go
+++ b/key_package.go
@@ -141,6 +141,10 @@ func (pkg *KeyPackage) verify(ctx *groupContext) error {
 
 // GenerateRef generates this key package's reference.
 func (pkg *KeyPackage) GenerateRef() (KeyPackageRef, error) {
+	if _, ok := cipherSuiteDescriptions[pkg.cipherSuite]; !ok {
+		return nil, fmt.Errorf("mls: invalid cipher suite %d", pkg.cipherSuite)
+	}
+
 	var b cryptobyte.Builder
 	pkg.marshal(&b)
 	raw, err := b.Bytes()
-- 
2.43.0


From b0f9e751577efc5b95bda8c57bf62838c647d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:31 +0000
Subject: [PATCH 15/28] fix: check the whole resolution when verifying parent
 hashes

As per section 7.9.2, a parent node is only valid with respect to one of
its descendants if all other nodes in the resolution of the child are
unmerged leaves of the parent node.
---
 tree.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 2310ad7..2340d44 100644
--- a/tree.go
+++ b/tree.go
@@ -1034,8 +1034,8 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 			return false
 		}
 
-		isLeftDescendant := tree.findParentHash(tree.resolve(l), leftParentHash)
-		isRightDescendant := tree.findParentHash(tree.resolve(r), rightParentHash)
+		isLeftDescendant := tree.findParentHash(tree.resolveMerged(l, exclude), leftParentHash)
+		isRightDescendant := tree.findParentHash(tree.resolveMerged(r, exclude), rightParentHash)
 		if isLeftDescendant == isRightDescendant {
 			return false
 		}
@@ -1043,6 +1043,25 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 	return true
 }
 
+// resolveMerged returns the only node in the resolution of x which isn't an
+// unmerged leaf. If there are several such nodes, the tree isn't parent-hash
+// valid and nil is returned.
+func (tree ratchetTree) resolveMerged(x nodeIndex, unmergedLeaves map[leafIndex]struct{}) []nodeIndex {
+	var merged []nodeIndex
+	for _, y := range tree.resolve(x) {
+		if li, ok := y.leafIndex(); ok {
+			if _, unmerged := unmergedLeaves[li]; unmerged {
+				continue
+			}
+		}
+		merged = append(merged, y)
+	}
+	if len(merged) != 1 {
+		return nil
+	}
+	return merged
+}
+
 func (tree ratchetTree) findParentHash(nodeIndices []nodeIndex, parentHash []byte) bool {
 	for _, x := range nodeIndices {
 		node := tree.get(x)
-- 
2.43.0


From f51badd8c389a6f37b5094b8b4460ec602bd9f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:17 +0000
Subject: [PATCH 16/28] fix: check the size of received path secrets

The KDF panics when handed a short secret and silently ignores the end of
a long one.
---
 tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree.go b/tree.go
index 2340d44..9fec6b5 100644
--- a/tree.go
+++ b/tree.go
@@ -496,6 +496,11 @@ func decryptPathSecret(cs CipherSuite, nodePriv hpkePrivateKey, ctx *groupContex
 }
 
 func nodePrivFromPathSecret(cs CipherSuite, pathSecret []byte, nodePub hpkePublicKey) (hpkePrivateKey, error) {
+	_, kdf, _ := cs.hpke().Params()
+	if len(pathSecret) != kdf.ExtractSize() {
+		return nil, fmt.Errorf("mls: invalid path secret size")
+	}
+
 	nodeSecret, err := cs.deriveSecret(pathSecret, []byte("node"))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From bfc1b2e483638508d248135ac16a7d16eab85eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:25 +0000
Subject: [PATCH 17/28] fix: don't allocate memory for truncated opaque vectors

A few bytes of input could cause allocations of up to 1 GiB each.
---
 mls.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mls.go b/mls.go
index adfc8c8..33ba510 100644
--- a/mls.go
+++ b/mls.go
@@ -57,6 +57,10 @@ func readOpaqueVec(s *cryptobyte.String, out *[]byte) bool {
 		return false
 	}
 
+	// Check the length before allocating any memory
+	if uint64(n) > uint64(len(*s)) {
+		return false
+	}
 	b := make([]byte, n)
 	if !s.CopyBytes(b) {
 		return false
-- 
2.43.0


From af7215e6a58c36b33bbaec8c3a7e761b0cb85fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:25 +0000
Subject: [PATCH 18/28] fix: return an error for truncated signatures

Key packages and group infos with a truncated signature were decoded
without error.
---
 group.go       | 2 +-
 key_package.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index 5685876..34b4e8f 100644
--- a/group.go
+++ b/group.go
@@ -976,7 +976,7 @@ func (info *groupInfo) unmarshal(s *cryptobyte.String) error {
 	info.extensions = exts
 
 	if !readOpaqueVec(s, &info.confirmationTag) || !s.ReadUint32((*uint32)(&info.signer)) || !readOpaqueVec(s, &info.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
diff --git a/key_package.go b/key_package.go
index 9ee4879..a65b97e 100644
--- a/key_package.go
+++ b/key_package.go
@@ -72,7 +72,7 @@ func (pkg *KeyPackage) unmarshal(s *cryptobyte.String) error {
 	pkg.extensions = exts
 
 	if !readOpaqueVec(s, &pkg.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
-- 
2.43.0


From 84e3c99ef51203fc1da3a0d12ec64b67a06fee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:44 +0000
Subject: [PATCH 19/28] fix: limit the ratchet generation of received messages

A member could make all others perform up to 2^32 key derivations with a
single message.
---
 group.go       | 4 +++-
 secret_tree.go | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 34b4e8f..2b5ff05 100644
--- a/group.go
+++ b/group.go
@@ -377,7 +377,9 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
 	}
 
-	// TODO: limit number of iterations
+	if senderData.generation > maxRatchetGeneration {
+		return nil, fmt.Errorf("mls: ratchet generation %v exceeds limit", senderData.generation)
+	}
 	// TODO: erase knowledge about used generations to ensure forward secrecy
 	for secret.generation != senderData.generation {
 		secret, err = secret.deriveNext(cs)
diff --git a/secret_tree.go b/secret_tree.go
index e8e7494..3763c2c 100644
--- a/secret_tree.go
+++ b/secret_tree.go
@@ -4,6 +4,10 @@ import (
 	"golang.org/x/crypto/cryptobyte"
 )
 
+// maxRatchetGeneration limits how far a ratchet can be advanced, because it
+// takes one key derivation per generation to decrypt a message.
+const maxRatchetGeneration = 1 << 20
+
 type ratchetLabel []byte
 
 var (
-- 
2.43.0


From 3a0456b1945071ccddf4dfd69e59480e8dbdf249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:13 +0000
Subject: [PATCH 20/28] fix: copy the identity passed to NewBasicCredential

The credential kept a reference to the caller's slice, so that reusing the
buffer changed the identity of the credential afterwards.
---
 crypto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 2aae887..6b0b36c 100644
--- a/crypto.go
+++ b/crypto.go
@@ -1,6 +1,7 @@
 package mls
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 
@@ -34,7 +35,7 @@ type Credential struct {
 func NewBasicCredential(identity []byte) *Credential {
 	return &Credential{
 		credentialType: credentialTypeBasic,
-		identity:       identity,
+		identity:       bytes.Clone(identity),
 	}
 }
 
-- 
2.43.0


From 029b88dad6309d87ece67371cbe5e9e3c65dfa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:32 +0000
Subject: [PATCH 21/28] fix: return copies from Welcome.NewMembers

The returned references were slices of the Welcome itself, so that writing to
them made the Welcome unusable.
---
 group.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 2b5ff05..2c28b21 100644
--- a/group.go
+++ b/group.go
@@ -1,6 +1,7 @@
 package mls
 
 import (
+	"bytes"
 	"crypto/rand"
 	"fmt"
 	"io"
@@ -1213,7 +1214,7 @@ func (w *Welcome) marshal(b *cryptobyte.Builder) {
 func (w *Welcome) NewMembers() []KeyPackageRef {
 	refs := make([]KeyPackageRef, len(w.secrets))
 	for i, sec := range w.secrets {
-		refs[i] = sec.newMember
+		refs[i] = bytes.Clone(sec.newMember)
 	}
 	return refs
 }
-- 
2.43.0


From eb449d2aae8053e94114819e8b98976ea84af5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:57 +0000
Subject: [PATCH 22/28] fix: do not keep references to the caller's keys and
 group id

A group kept the slices of the key package and group id passed to CreateGroup
and GroupFromWelcome, and a pointer to the leaf node of the key package. Wiping
the keys after use or reusing the variables broke the group.
---
 group.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/group.go b/group.go
index 2c28b21..942352d 100644
--- a/group.go
+++ b/group.go
@@ -37,11 +37,12 @@ type Group struct {
 func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 	cs := keyPairPkg.Public.cipherSuite
 
+	leafNode := keyPairPkg.Public.leafNode
 	tree := make(ratchetTree, 1)
-	tree.add(&keyPairPkg.Public.leafNode)
+	tree.add(&leafNode)
 
 	privTree := make([]hpkePrivateKey, len(tree))
-	privTree[0] = keyPairPkg.Private.EncryptionKey
+	privTree[0] = bytes.Clone(keyPairPkg.Private.EncryptionKey)
 
 	treeHash, err := tree.computeRootTreeHash(cs)
 	if err != nil {
@@ -59,7 +60,7 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 	groupCtx := groupContext{
 		version:                 keyPairPkg.Public.version,
 		cipherSuite:             keyPairPkg.Public.cipherSuite,
-		groupID:                 groupID,
+		groupID:                 bytes.Clone(groupID),
 		epoch:                   0,
 		treeHash:                treeHash,
 		confirmedTranscriptHash: confirmedTranscriptHash,
@@ -89,7 +90,7 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 		tree:                  tree,
 		privTree:              privTree,
 		myLeafIndex:           0,
-		signaturePriv:         keyPairPkg.Private.SignatureKey,
+		signaturePriv:         bytes.Clone(keyPairPkg.Private.SignatureKey),
 		groupContext:          groupCtx,
 		interimTranscriptHash: interimTranscriptHash,
 		pskSecret:             pskSecret,
@@ -201,7 +202,7 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	}
 
 	privTree := make([]hpkePrivateKey, len(tree))
-	privTree[int(myLeafIndex.nodeIndex())] = keyPairPkg.Private.EncryptionKey
+	privTree[int(myLeafIndex.nodeIndex())] = bytes.Clone(keyPairPkg.Private.EncryptionKey)
 
 	if groupSecrets.pathSecret != nil {
 		nodeIndex := commonAncestor(myLeafIndex.nodeIndex(), groupInfo.signer.nodeIndex())
@@ -220,7 +221,7 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 		initSecret:            initSecret,
 		myLeafIndex:           myLeafIndex,
 		privTree:              privTree,
-		signaturePriv:         keyPairPkg.Private.SignatureKey,
+		signaturePriv:         bytes.Clone(keyPairPkg.Private.SignatureKey),
 	}, nil
 }
 
-- 
2.43.0


From 2e44e5aa758da58999b83d07de8ec53d7900466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:30 +0000
Subject: [PATCH 23/28] fix: accept leaf nodes with default extensions not
 listed in their capabilities

---
 tree.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 9fec6b5..b349f3b 100644
--- a/tree.go
+++ b/tree.go
@@ -236,6 +236,17 @@ const (
 	extensionTypeExternalSenders      extensionType = 0x0005
 )
 
+// isDefault returns true if the extension type is implicitly supported by all
+// clients, see section 7.2.
+func (t extensionType) isDefault() bool {
+	switch t {
+	case extensionTypeApplicationID, extensionTypeRatchetTree, extensionTypeRequiredCapabilities, extensionTypeExternalPub, extensionTypeExternalSenders:
+		return true
+	default:
+		return false
+	}
+}
+
 type extension struct {
 	extensionType extensionType
 	extensionData []byte
@@ -431,7 +442,7 @@ func (node *leafNode) verify(options *leafNodeVerifyOptions) error {
 		supportedExts[et] = struct{}{}
 	}
 	for _, ext := range node.extensions {
-		if _, ok := supportedExts[ext.extensionType]; !ok {
+		if _, ok := supportedExts[ext.extensionType]; !ok && !ext.extensionType.isDefault() {
 			return fmt.Errorf("mls: extension type %d used by leaf node not supported by that leaf node", ext.extensionType)
 		}
 	}
-- 
2.43.0


From e71c1f68ca7b7edace911d2d61a116bdf7943bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:54 +0000
Subject: [PATCH 24/28] fix: check the required capabilities of the group when
 verifying leaf nodes

---
 group.go    |  2 ++
 proposal.go | 11 ++++++++
 tree.go     | 81 ++++++++++++++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 93 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 942352d..1e5cfb3 100644
--- a/group.go
+++ b/group.go
@@ -518,6 +518,8 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			signatureKeys:  signatureKeys,
 			encryptionKeys: encryptionKeys,
 			now:            now,
+
+			groupExtensions: group.groupContext.extensions,
 		})
 		if err != nil {
 			return fmt.Errorf("failed to verify leaf node: %v", err)
diff --git a/proposal.go b/proposal.go
index 5563034..4a89e81 100644
--- a/proposal.go
+++ b/proposal.go
@@ -37,6 +37,17 @@ func (t proposalType) marshal(b *cryptobyte.Builder) {
 	b.AddUint16(uint16(t))
 }
 
+// isDefault returns true if the proposal type is implicitly supported by all
+// clients, see section 7.2.
+func (t proposalType) isDefault() bool {
+	switch t {
+	case proposalTypeAdd, proposalTypeUpdate, proposalTypeRemove, proposalTypePSK, proposalTypeReinit, proposalTypeExternalInit, proposalTypeGroupContextExtensions:
+		return true
+	default:
+		return false
+	}
+}
+
 type proposal struct {
 	proposalType           proposalType
 	add                    *add                    // for proposalTypeAdd
diff --git a/tree.go b/tree.go
index b349f3b..c5f7541 100644
--- a/tree.go
+++ b/tree.go
@@ -179,6 +179,72 @@ func (caps *capabilities) marshal(b *cryptobyte.Builder) {
 	})
 }
 
+// requiredCapabilities is the payload of the required_capabilities group context
+// extension.
+type requiredCapabilities struct {
+	extensions  []extensionType
+	proposals   []proposalType
+	credentials []credentialType
+}
+
+func (req *requiredCapabilities) unmarshal(s *cryptobyte.String) error {
+	*req = requiredCapabilities{}
+
+	err := readVector(s, func(s *cryptobyte.String) error {
+		var et extensionType
+		if !s.ReadUint16((*uint16)(&et)) {
+			return io.ErrUnexpectedEOF
+		}
+		req.extensions = append(req.extensions, et)
+		return nil
+	})
+	if err != nil {
+		return err
+	}
+
+	err = readVector(s, func(s *cryptobyte.String) error {
+		var pt proposalType
+		if !s.ReadUint16((*uint16)(&pt)) {
+			return io.ErrUnexpectedEOF
+		}
+		req.proposals = append(req.proposals, pt)
+		return nil
+	})
+	if err != nil {
+		return err
+	}
+
+	return readVector(s, func(s *cryptobyte.String) error {
+		var ct credentialType
+		if !s.ReadUint16((*uint16)(&ct)) {
+			return io.ErrUnexpectedEOF
+		}
+		req.credentials = append(req.credentials, ct)
+		return nil
+	})
+}
+
+// verify checks that a client with the specified capabilities can be a member
+// of the group.
+func (req *requiredCapabilities) verify(caps *capabilities) error {
+	for _, et := range req.extensions {
+		if !et.isDefault() && !slices.Contains(caps.extensions, et) {
+			return fmt.Errorf("mls: extension type %d required by the group not supported by leaf node", et)
+		}
+	}
+	for _, pt := range req.proposals {
+		if !pt.isDefault() && !slices.Contains(caps.proposals, pt) {
+			return fmt.Errorf("mls: proposal type %d required by the group not supported by leaf node", pt)
+		}
+	}
+	for _, ct := range req.credentials {
+		if !slices.Contains(caps.credentials, ct) {
+			return fmt.Errorf("mls: credential type %d required by the group not supported by leaf node", ct)
+		}
+	}
+	return nil
+}
+
 const maxLeafNodeLifetime = 3 * 30 * 24 * time.Hour
 
 type lifetime struct {
@@ -421,7 +487,14 @@ func (node *leafNode) verify(options *leafNodeVerifyOptions) error {
 		return fmt.Errorf("mls: leaf node signature verification failed")
 	}
 
-	// TODO: check required_capabilities group extension
+	if raw := findExtensionData(options.groupExtensions, extensionTypeRequiredCapabilities); raw != nil {
+		var req requiredCapabilities
+		if err := unmarshal(raw, &req); err != nil {
+			return fmt.Errorf("failed to unmarshal required capabilities: %v", err)
+		} else if err := req.verify(&node.capabilities); err != nil {
+			return err
+		}
+	}
 
 	if _, ok := options.supportedCreds[node.credential.credentialType]; !ok {
 		return fmt.Errorf("mls: credential type %v used by leaf node not supported by all members", node.credential.credentialType)
@@ -467,6 +540,8 @@ type leafNodeVerifyOptions struct {
 	signatureKeys  map[string]struct{}
 	encryptionKeys map[string]struct{}
 	now            func() time.Time
+
+	groupExtensions []extension
 }
 
 type updatePathNode struct {
@@ -792,6 +867,8 @@ func (tree ratchetTree) verifyLeaves(ctx *groupContext, leaves []leafIndex, now
 			signatureKeys:  signatureKeys,
 			encryptionKeys: encryptionKeys,
 			now:            now,
+
+			groupExtensions: ctx.extensions,
 		})
 		if err != nil {
 			return fmt.Errorf("leaf node at index %v: %v", li, err)
@@ -878,6 +955,8 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 			signatureKeys:  signatureKeys,
 			encryptionKeys: encryptionKeys,
 			now:            now,
+
+			groupExtensions: ctx.extensions,
 		})
 		if err != nil {
 			return fmt.Errorf("leaf node at index %v: %v", li, err)
-- 
2.43.0


From 613ec691c9f50f92a6dafd0c870b7f9550f7fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:02:51 +0000
Subject: [PATCH 25/28] fix: reject commits with pre-shared keys which aren't
 available

Such keys were left out of the key schedule, as if the commit hadn't listed
any PSK proposal.
---
 group.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 1e5cfb3..5f4bdf6 100644
--- a/group.go
+++ b/group.go
@@ -450,7 +450,10 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		return fmt.Errorf("failed to verify proposals: %v", err)
 	}
 
-	var updatedLeaves []leafIndex
+	var (
+		updatedLeaves []leafIndex
+		numPSKs       int
+	)
 	for i, prop := range proposals {
 		switch prop.proposalType {
 		case proposalTypeAdd:
@@ -466,8 +469,13 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			if group.tree.getLeaf(prop.remove.removed) == nil {
 				return fmt.Errorf("mls: remove proposal references blank node")
 			}
+		case proposalTypePSK:
+			numPSKs++
 		}
 	}
+	if numPSKs != len(pskIDs) {
+		return fmt.Errorf("mls: missing pre-shared key for PSK proposal")
+	}
 
 	// TODO: additional proposal list checks
 
-- 
2.43.0


From 0b27270fc34b03bda5df399bbba3863df2eaedf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:31 +0000
Subject: [PATCH 26/28] fix: apply group context extensions proposals

Commits with such a proposal were processed as if the proposal hadn't been
listed: valid ones were rejected, and those which left the extensions as they
were got accepted.
---
 group.go | 13 +++++++++----
 tree.go  | 38 +++++++++++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/group.go b/group.go
index 5f4bdf6..36fe745 100644
--- a/group.go
+++ b/group.go
@@ -485,10 +485,15 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 	newGroupCtx := group.groupContext
 	newGroupCtx.epoch++
+	for _, prop := range proposals {
+		if prop.proposalType == proposalTypeGroupContextExtensions {
+			newGroupCtx.extensions = prop.groupContextExtensions.extensions
+		}
+	}
 
 	newTree := group.tree.copy()
 	newLeaves := newTree.apply(proposals, senders)
-	if err := newTree.verifyLeaves(&group.groupContext, append(updatedLeaves, newLeaves...), now); err != nil {
+	if err := newTree.verifyLeaves(&newGroupCtx, append(updatedLeaves, newLeaves...), now); err != nil {
 		return fmt.Errorf("failed to verify proposals: %v", err)
 	}
 
@@ -527,7 +532,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			encryptionKeys: encryptionKeys,
 			now:            now,
 
-			groupExtensions: group.groupContext.extensions,
+			groupExtensions: newGroupCtx.extensions,
 		})
 		if err != nil {
 			return fmt.Errorf("failed to verify leaf node: %v", err)
@@ -550,8 +555,6 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			return fmt.Errorf("failed to compute root tree hash: %v", err)
 		}
 
-		// TODO: update group context extensions
-
 		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, newLeaves, newPrivTree)
 		if err != nil {
 			return fmt.Errorf("failed to decrypt path secrets: %v", err)
@@ -566,6 +569,8 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 	if err := newTree.verifyCreds(); err != nil {
 		return err
+	} else if err := newTree.verifyRequiredCapabilities(newGroupCtx.extensions); err != nil {
+		return err
 	}
 
 	newGroupCtx.confirmedTranscriptHash, err = authContent.confirmedTranscriptHashInput().hash(cs, group.interimTranscriptHash)
diff --git a/tree.go b/tree.go
index c5f7541..cea00d6 100644
--- a/tree.go
+++ b/tree.go
@@ -487,13 +487,8 @@ func (node *leafNode) verify(options *leafNodeVerifyOptions) error {
 		return fmt.Errorf("mls: leaf node signature verification failed")
 	}
 
-	if raw := findExtensionData(options.groupExtensions, extensionTypeRequiredCapabilities); raw != nil {
-		var req requiredCapabilities
-		if err := unmarshal(raw, &req); err != nil {
-			return fmt.Errorf("failed to unmarshal required capabilities: %v", err)
-		} else if err := req.verify(&node.capabilities); err != nil {
-			return err
-		}
+	if err := node.verifyRequiredCapabilities(options.groupExtensions); err != nil {
+		return err
 	}
 
 	if _, ok := options.supportedCreds[node.credential.credentialType]; !ok {
@@ -532,6 +527,20 @@ func (node *leafNode) verify(options *leafNodeVerifyOptions) error {
 	return nil
 }
 
+// verifyRequiredCapabilities verifies that the leaf node has the capabilities
+// required by the group, if any.
+func (node *leafNode) verifyRequiredCapabilities(groupExtensions []extension) error {
+	raw := findExtensionData(groupExtensions, extensionTypeRequiredCapabilities)
+	if raw == nil {
+		return nil
+	}
+	var req requiredCapabilities
+	if err := unmarshal(raw, &req); err != nil {
+		return fmt.Errorf("failed to unmarshal required capabilities: %v", err)
+	}
+	return req.verify(&node.capabilities)
+}
+
 type leafNodeVerifyOptions struct {
 	cipherSuite    CipherSuite
 	groupID        GroupID
@@ -892,6 +901,21 @@ func (tree ratchetTree) verifyCreds() error {
 	return nil
 }
 
+// verifyRequiredCapabilities verifies that all members have the capabilities
+// required by the group.
+func (tree ratchetTree) verifyRequiredCapabilities(groupExtensions []extension) error {
+	for li := leafIndex(0); li < leafIndex(tree.numLeaves()); li++ {
+		node := tree.getLeaf(li)
+		if node == nil {
+			continue
+		}
+		if err := node.verifyRequiredCapabilities(groupExtensions); err != nil {
+			return fmt.Errorf("leaf node at index %v: %v", li, err)
+		}
+	}
+	return nil
+}
+
 func (tree ratchetTree) keys() (signatureKeys, encryptionKeys map[string]struct{}) {
 	signatureKeys = make(map[string]struct{})
 	encryptionKeys = make(map[string]struct{})
-- 
2.43.0


From 439720ffc2f684fef916153bdcf90923a91ab159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:14:49 +0000
Subject: [PATCH 27/28] fix: reject updates which don't change the encryption
 key

---
 group.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/group.go b/group.go
index 36fe745..36a1526 100644
--- a/group.go
+++ b/group.go
@@ -464,6 +464,10 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			if prop.update.leafNode.leafNodeSource != leafNodeSourceUpdate {
 				return fmt.Errorf("mls: update proposal contains a leaf node with an invalid source")
 			}
+			oldLeafNode := group.tree.getLeaf(senders[i])
+			if oldLeafNode == nil || bytes.Equal(prop.update.leafNode.encryptionKey, oldLeafNode.encryptionKey) {
+				return fmt.Errorf("mls: update proposal must change the encryption key")
+			}
 			updatedLeaves = append(updatedLeaves, senders[i])
 		case proposalTypeRemove:
 			if group.tree.getLeaf(prop.remove.removed) == nil {
-- 
2.43.0


From 546a291761434c0a396305cf6fa4d01d882a1626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:32 +0000
Subject: [PATCH 28/28] fix: use a new ratchet generation for each message

---
 group.go | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/group.go b/group.go
index 36a1526..bfce704 100644
--- a/group.go
+++ b/group.go
@@ -31,6 +31,9 @@ type Group struct {
 	signaturePriv signaturePrivateKey
 
 	pendingProposals []pendingProposal
+
+	// Next secret of our own ratchets in the current epoch, by label
+	senderRatchets map[string]ratchetSecret
 }
 
 // CreateGroup creates a new group with a single member.
@@ -622,6 +625,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	group.epochSecret = newEpochSecret
 	group.initSecret = newInitSecret
 	group.pendingProposals = nil // TODO: only clear proposals we've consumed
+	group.senderRatchets = nil
 	return nil
 }
 
@@ -868,25 +872,41 @@ func (group *Group) CreateApplicationMessage(data []byte) ([]byte, error) {
 func (group *Group) encryptPrivateMessage(framedContent *framedContent, privContent *privateMessageContent) ([]byte, error) {
 	cs := group.groupContext.cipherSuite
 
-	senderData, err := newSenderData(group.myLeafIndex, 0) // TODO: set generation > 0
-	if err != nil {
-		return nil, fmt.Errorf("failed to create sender data: %v", err)
-	}
+	label := ratchetLabelFromContentType(framedContent.contentType)
+	secret, ok := group.senderRatchets[string(label)]
+	if !ok {
+		encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
+		if err != nil {
+			return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
+		}
 
-	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
-	if err != nil {
-		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
+		secretTree, err := deriveSecretTree(cs, group.tree.numLeaves(), encryptionSecret)
+		if err != nil {
+			return nil, fmt.Errorf("failed to erive secret tree: %v", err)
+		}
+
+		secret, err = secretTree.deriveRatchetRoot(cs, group.myLeafIndex.nodeIndex(), label)
+		if err != nil {
+			return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
+		}
+	}
+	if secret.generation > maxRatchetGeneration {
+		return nil, fmt.Errorf("mls: ratchet generation %v exceeds limit", secret.generation)
 	}
 
-	secretTree, err := deriveSecretTree(cs, group.tree.numLeaves(), encryptionSecret)
+	// Each generation must be used only once
+	nextSecret, err := secret.deriveNext(cs)
 	if err != nil {
-		return nil, fmt.Errorf("failed to erive secret tree: %v", err)
+		return nil, fmt.Errorf("failed to derive next ratchet secret: %v", err)
+	}
+	if group.senderRatchets == nil {
+		group.senderRatchets = make(map[string]ratchetSecret)
 	}
+	group.senderRatchets[string(label)] = nextSecret
 
-	label := ratchetLabelFromContentType(framedContent.contentType)
-	secret, err := secretTree.deriveRatchetRoot(cs, group.myLeafIndex.nodeIndex(), label)
+	senderData, err := newSenderData(group.myLeafIndex, secret.generation)
 	if err != nil {
-		return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
+		return nil, fmt.Errorf("failed to create sender data: %v", err)
 	}
 
 	senderDataSecret, err := cs.deriveSecret(group.epochSecret, secretLabelSenderData)
-- 
2.43.0

