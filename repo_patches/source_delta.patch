From 0b5ac2f29f2e75976ebe320237fd44bac5e6c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:08 +0000
Subject: [PATCH 01/27] fix: reject truncated key packages and group infos

A key package without a signature, or a group info missing its last fields,
was decoded as if it were complete.
---
 group.go       | 2 +-
 key_package.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index d91fb76..4f7cb39 100644
--- a/group.go
+++ b/group.go
@@ -913,7 +913,7 @@ func (info *groupInfo) unmarshal(s *cryptobyte.String) error {
 	info.extensions = exts
 
 	if !readOpaqueVec(s, &info.confirmationTag) || !s.ReadUint32((*uint32)(&info.signer)) || !readOpaqueVec(s, &info.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
diff --git a/key_package.go b/key_package.go
index 389dba9..ad62959 100644
--- a/key_package.go
+++ b/key_package.go
@@ -72,7 +72,7 @@ func (pkg *KeyPackage) unmarshal(s *cryptobyte.String) error {
 	pkg.extensions = exts
 
 	if !readOpaqueVec(s, &pkg.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
-- 
2.43.0


From 4e43756e8fe70074603e14cc35253bdc7b0b5a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:12 +0000
Subject: [PATCH 02/27] fix: check the length of opaque vectors before
 allocating

A few bytes announcing a long vector made the decoder allocate up to 1 GiB.
---
 mls.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mls.go b/mls.go
index adfc8c8..bc03568 100644
--- a/mls.go
+++ b/mls.go
@@ -57,6 +57,11 @@ func readOpaqueVec(s *cryptobyte.String, out *[]byte) bool {
 		return false
 	}
 
+	// Don't allocate memory for bytes which aren't there
+	if uint64(n) > uint64(len(*s)) {
+		return false
+	}
+
 	b := make([]byte, n)
 	if !s.CopyBytes(b) {
 		return false
-- 
2.43.0


From 68a78a6cf97a491fd76be7f1af888f61ce6df23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:15 +0000
Subject: [PATCH 03/27] fix: reject messages from leaves outside of the tree

A sender or signer index beyond the end of the ratchet tree caused a panic, and
indices above 2^31 were mistaken for low ones.
---
 group.go | 4 ++++
 tree.go  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/group.go b/group.go
index 4f7cb39..498c871 100644
--- a/group.go
+++ b/group.go
@@ -343,6 +343,10 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt sender data: %v", err)
 	}
 
+	if group.tree.getLeaf(senderData.leafIndex) == nil {
+		return nil, fmt.Errorf("mls: blank leaf node for sender")
+	}
+
 	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
 	if err != nil {
 		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
diff --git a/tree.go b/tree.go
index a0eefbe..db39d4c 100644
--- a/tree.go
+++ b/tree.go
@@ -680,6 +680,9 @@ func (tree ratchetTree) set(i nodeIndex, node *node) {
 }
 
 func (tree ratchetTree) getLeaf(li leafIndex) *leafNode {
+	if uint32(li) >= uint32(tree.numLeaves()) {
+		return nil
+	}
 	node := tree.get(li.nodeIndex())
 	if node == nil {
 		return nil
-- 
2.43.0


From 08132f64c3aef282584f253fa0d71f879a4001fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:19 +0000
Subject: [PATCH 04/27] fix: return an error for unknown and mismatched cipher
 suites

Referencing a key package or joining from a Welcome with an unknown cipher suite
index caused a panic. The Welcome's cipher suite was never compared with the
joiner's key package.
---
 ciphersuite.go | 10 ++++++++++
 group.go       | 12 ++++++++++++
 key_package.go |  4 ++++
 3 files changed, 26 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index c2edb39..fb928e6 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -71,6 +71,12 @@ func (cs CipherSuite) Supported() bool {
 	return true
 }
 
+// known checks whether the parameters of the cipher suite are known.
+func (cs CipherSuite) known() bool {
+	_, ok := cipherSuiteDescriptions[cs]
+	return ok
+}
+
 func (cs CipherSuite) hash() crypto.Hash {
 	desc, ok := cipherSuiteDescriptions[cs]
 	if !ok {
@@ -151,6 +157,10 @@ func (cs CipherSuite) verifyMAC(key, message, tag []byte) bool {
 }
 
 func (cs CipherSuite) refHash(label, value []byte) ([]byte, error) {
+	if !cs.known() {
+		return nil, fmt.Errorf("mls: invalid cipher suite %d", cs)
+	}
+
 	var b cryptobyte.Builder
 	writeOpaqueVec(&b, label)
 	writeOpaqueVec(&b, value)
diff --git a/group.go b/group.go
index 498c871..68599b2 100644
--- a/group.go
+++ b/group.go
@@ -36,6 +36,10 @@ type Group struct {
 func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 	cs := keyPairPkg.Public.cipherSuite
 
+	if !cs.known() {
+		return nil, fmt.Errorf("mls: invalid cipher suite %d", cs)
+	}
+
 	tree := make(ratchetTree, 1)
 	tree.add(&keyPairPkg.Public.leafNode)
 
@@ -104,6 +108,10 @@ func GroupFromWelcome(welcome *Welcome, keyPairPkg *KeyPairPackage) (*Group, err
 		return nil, fmt.Errorf("failed to generate key package ref: %v", err)
 	}
 
+	if welcome.cipherSuite != keyPairPkg.Public.cipherSuite {
+		return nil, fmt.Errorf("mls: welcome cipher suite doesn't match key package")
+	}
+
 	groupSecrets, err := welcome.decryptGroupSecrets(keyPkgRef, keyPairPkg.Private.InitKey)
 	if err != nil {
 		return nil, fmt.Errorf("failed to decrypt group secrets: %v", err)
@@ -141,6 +149,10 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 		return nil, fmt.Errorf("failed to decrypt group info: %v", err)
 	}
 
+	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
+		return nil, fmt.Errorf("mls: group info cipher suite doesn't match welcome")
+	}
+
 	rawTree := options.rawTree
 	if rawTree == nil {
 		rawTree = findExtensionData(groupInfo.extensions, extensionTypeRatchetTree)
diff --git a/key_package.go b/key_package.go
index ad62959..dd3df0c 100644
--- a/key_package.go
+++ b/key_package.go
@@ -181,6 +181,10 @@ type KeyPairPackage struct {
 func GenerateKeyPairPackage(cs CipherSuite, credential *Credential) (*KeyPairPackage, error) {
 	// TODO: add options to configure the new key package
 
+	if !cs.known() {
+		return nil, fmt.Errorf("mls: invalid cipher suite %d", cs)
+	}
+
 	initPub, initPriv, err := cs.generateEncryptionKeyPair()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 8ed62a477618950cffc05feb792dde20a475491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:23 +0000
Subject: [PATCH 05/27] fix: avoid panics in key derivation and ECDSA
 verification

Key pairs cannot be derived for cipher suites whose KEM seed size differs from
the hash size, and public keys which are not on the curve cannot be used.
---
 ciphersuite.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index fb928e6..ccf6fef 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -288,6 +288,9 @@ func (cs CipherSuite) generateEncryptionKeyPair() (hpkePublicKey, hpkePrivateKey
 
 func (cs CipherSuite) deriveEncryptionKeyPair(seed []byte) (hpkePublicKey, hpkePrivateKey, error) {
 	kem, _, _ := cs.hpke().Params()
+	if len(seed) != kem.Scheme().SeedSize() {
+		return nil, nil, fmt.Errorf("mls: deriving key pairs is not supported for cipher suite %d", cs)
+	}
 	pub, priv := kem.Scheme().DeriveKeyPair(seed)
 
 	rawPub, err := pub.MarshalBinary()
@@ -375,6 +378,9 @@ func (scheme ecdsaSignatureScheme) Sign(signKey, message []byte) ([]byte, error)
 
 func (scheme ecdsaSignatureScheme) Verify(publicKey, message, sig []byte) bool {
 	x, y := elliptic.Unmarshal(scheme.curve, publicKey)
+	if x == nil {
+		return false
+	}
 	pub := &ecdsa.PublicKey{Curve: scheme.curve, X: x, Y: y}
 	return ecdsa.VerifyASN1(pub, scheme.hashSum(message), sig)
 }
-- 
2.43.0


From 16b368bd256421a7a4905f1302ffc52b6409afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:02 +0000
Subject: [PATCH 06/27] fix: reject malformed ratchet trees

A ratchet tree which is empty, ends with blank nodes, has a leaf in the place of
a parent (or vice versa), or lists unmerged leaves which are blank, unsorted or
out of range made the joiner panic or was accepted.
---
 tree.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tree.go b/tree.go
index db39d4c..1f53fc0 100644
--- a/tree.go
+++ b/tree.go
@@ -638,12 +638,34 @@ func (tree *ratchetTree) unmarshal(s *cryptobyte.String) error {
 		return err
 	}
 
+	if len(*tree) == 0 || (*tree)[len(*tree)-1] == nil {
+		return fmt.Errorf("mls: the last node of a ratchet tree must not be blank")
+	}
+	for i, n := range *tree {
+		if n != nil && (n.nodeType == nodeTypeLeaf) != nodeIndex(i).isLeaf() {
+			return fmt.Errorf("mls: invalid node type at index %v in ratchet tree", i)
+		}
+	}
+
 	// The raw tree doesn't include blank nodes at the end, fill it until next
 	// power of 2
 	for !isPowerOf2(uint32(len(*tree) + 1)) {
 		*tree = append(*tree, nil)
 	}
 
+	for i, n := range *tree {
+		if n == nil || n.nodeType != nodeTypeParent {
+			continue
+		}
+		prev := -1
+		for _, li := range n.parentNode.unmergedLeaves {
+			if int(li) <= prev || tree.getLeaf(li) == nil {
+				return fmt.Errorf("mls: invalid unmerged leaves at index %v in ratchet tree", i)
+			}
+			prev = int(li)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 895fbf7c52d2d83698025101a5ea29fe300b94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:05 +0000
Subject: [PATCH 07/27] fix: don't alter the current tree when adding members
 to a copy

Creating an invitation, or processing a commit which is then rejected, recorded
the new members as unmerged in the group's own tree. All further commits failed
or led to a different tree hash.
---
 tree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tree.go b/tree.go
index 1f53fc0..bcb36b1 100644
--- a/tree.go
+++ b/tree.go
@@ -1069,6 +1069,13 @@ func (tree *ratchetTree) add(leafNode *leafNode) {
 		}
 		node := tree.get(p)
 		if node != nil {
+			// Nodes are shared with copies of the tree: don't alter them
+			newNode, newParent := *node, *node.parentNode
+			newParent.unmergedLeaves = append([]leafIndex(nil), newParent.unmergedLeaves...)
+			newNode.parentNode = &newParent
+			node = &newNode
+			tree.set(p, node)
+
 			node.parentNode.unmergedLeaves = append(node.parentNode.unmergedLeaves, li)
 		}
 	}
-- 
2.43.0


From 1257732795c6411b505af345d70d9dbee28ca1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:09 +0000
Subject: [PATCH 08/27] fix: derive all path secrets when joining

A newcomer only derived the first path secret above the one in its Welcome, and
couldn't join a group whose tree has two or more further levels. Blank nodes on
the path caused a panic.
---
 group.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 68599b2..98dee0d 100644
--- a/group.go
+++ b/group.go
@@ -232,6 +232,10 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 }
 
 func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateKey, pathSecret []byte, nodeIndex nodeIndex) error {
+	if tree.get(nodeIndex) == nil {
+		return fmt.Errorf("mls: blank node %v for path secret", nodeIndex)
+	}
+
 	nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, tree.get(nodeIndex).encryptionKey())
 	if err != nil {
 		return fmt.Errorf("failed to derive node %v private key from path secret: %v", nodeIndex, err)
@@ -245,7 +249,11 @@ func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateK
 			break
 		}
 
-		pathSecret, err := cs.deriveSecret(pathSecret, []byte("path"))
+		if tree.get(nodeIndex) == nil {
+			continue // not in the filtered direct path
+		}
+
+		pathSecret, err = cs.deriveSecret(pathSecret, []byte("path"))
 		if err != nil {
 			return fmt.Errorf("failed to derive path secret: %v", err)
 		}
-- 
2.43.0


From 7aad453a586d088ff98114f2816da38eb170cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:12 +0000
Subject: [PATCH 09/27] fix: process commits which both add members and update
 the path

Path secrets are not encrypted to leaves added by the same commit (RFC 9420
section 7.6), but receivers expected one ciphertext for each of them.
---
 group.go | 13 ++++++++++++-
 tree.go  |  9 +++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index 98dee0d..13569e7 100644
--- a/group.go
+++ b/group.go
@@ -528,7 +528,18 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 		// TODO: update group context extensions
 
-		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, newPrivTree)
+		// Path secrets aren't encrypted to members added by this very commit
+		newLeaves := make(map[nodeIndex]struct{})
+		for _, prop := range proposals {
+			if prop.proposalType != proposalTypeAdd {
+				continue
+			}
+			if li, ok := newTree.findLeaf(&prop.add.keyPackage.leafNode); ok {
+				newLeaves[li.nodeIndex()] = struct{}{}
+			}
+		}
+
+		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, newPrivTree, newLeaves)
 		if err != nil {
 			return fmt.Errorf("failed to decrypt path secrets: %v", err)
 		}
diff --git a/tree.go b/tree.go
index bcb36b1..185fc2a 100644
--- a/tree.go
+++ b/tree.go
@@ -1240,7 +1240,7 @@ func (tree ratchetTree) mergeUpdatePath(cs CipherSuite, senderLeafIndex leafInde
 	return nil
 }
 
-func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, path *updatePath, privTree []hpkePrivateKey) ([]byte, error) {
+func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, path *updatePath, privTree []hpkePrivateKey, newLeaves map[nodeIndex]struct{}) ([]byte, error) {
 	senderNodeIndex := senderLeafIndex.nodeIndex()
 	recipientNodeIndex := recipientLeafIndex.nodeIndex()
 
@@ -1279,7 +1279,12 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 		panic("unreachable")
 	}
 
-	copathResolution := tree.resolve(copathNode)
+	var copathResolution []nodeIndex
+	for _, ni := range tree.resolve(copathNode) {
+		if _, isNew := newLeaves[ni]; !isNew {
+			copathResolution = append(copathResolution, ni)
+		}
+	}
 	if len(updatePathNode.encryptedPathSecret) != len(copathResolution) {
 		return nil, fmt.Errorf("mls: invalid UpdatePathNode.encrypted_path_secret length")
 	}
-- 
2.43.0


From 4fd221be9aec9d2ffb632ed2bffb728ae70b7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:15 +0000
Subject: [PATCH 10/27] fix: verify the confirmation tag of commits

A member whose view of the new epoch differs from the committer's silently
entered an epoch of its own.
---
 group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/group.go b/group.go
index 13569e7..d763f1a 100644
--- a/group.go
+++ b/group.go
@@ -576,6 +576,13 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		return fmt.Errorf("failed to extract epoch secret: %v", err)
 	}
 
+	confirmationKey, err := cs.deriveSecret(newEpochSecret, secretLabelConfirm)
+	if err != nil {
+		return fmt.Errorf("failed to derive confirmation key: %v", err)
+	} else if !authContent.auth.verifyConfirmationTag(cs, confirmationKey, newGroupCtx.confirmedTranscriptHash) {
+		return fmt.Errorf("mls: failed to verify confirmation tag")
+	}
+
 	newInitSecret, err := cs.deriveSecret(newEpochSecret, secretLabelInit)
 	if err != nil {
 		return fmt.Errorf("failed to erive init secret: %v", err)
-- 
2.43.0


From e0f71c16753a245e6d08182cadf1f9c2f779938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:18 +0000
Subject: [PATCH 11/27] fix: reject commits with proposals which cannot be
 applied

Removing a blank or nonexistent leaf was accepted or caused a panic. Pre-shared
keys and group context extensions were silently ignored.
---
 group.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/group.go b/group.go
index d763f1a..2a0cd0d 100644
--- a/group.go
+++ b/group.go
@@ -457,6 +457,24 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		return fmt.Errorf("failed to verify proposals: %v", err)
 	}
 
+	numPSKs := 0
+	for _, prop := range proposals {
+		switch prop.proposalType {
+		case proposalTypeRemove:
+			if group.tree.getLeaf(prop.remove.removed) == nil {
+				return fmt.Errorf("mls: remove proposal for blank leaf node")
+			}
+		case proposalTypePSK:
+			numPSKs++
+		case proposalTypeGroupContextExtensions:
+			// TODO: support group context extensions
+			return fmt.Errorf("mls: unsupported group context extensions proposal")
+		}
+	}
+	if numPSKs != len(pskIDs) {
+		return fmt.Errorf("mls: commit has %v PSK proposals, but %v PSKs are available", numPSKs, len(pskIDs))
+	}
+
 	for _, prop := range proposals {
 		if prop.proposalType == proposalTypeAdd {
 			if err := prop.add.keyPackage.verify(&group.groupContext); err != nil {
-- 
2.43.0


From f00d4d2a46366e7b9ce95ac272a9758ed58d1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:14 +0000
Subject: [PATCH 12/27] fix: count each credential type once per member

A member listing a credential type twice made up for another one not supporting
it, and made a type supported by everyone appear unsupported.
---
 tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree.go b/tree.go
index 185fc2a..bbe2c8d 100644
--- a/tree.go
+++ b/tree.go
@@ -745,7 +745,12 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 		}
 
 		numMembers++
+		seen := make(map[credentialType]struct{})
 		for _, ct := range node.capabilities.credentials {
+			if _, dup := seen[ct]; dup {
+				continue
+			}
+			seen[ct] = struct{}{}
 			supportedCredsCount[ct]++
 		}
 	}
-- 
2.43.0


From 50a802d90970d3ffb331576ba8e1c4274f24867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:17 +0000
Subject: [PATCH 13/27] fix: validate the leaf nodes of add and update
 proposals

Commits could introduce members whose leaf node isn't properly signed, has the
wrong source, is expired, uses an unsupported credential or reuses the keys of
another member.
---
 group.go |  8 +++++++
 tree.go  | 67 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 75 insertions(+)

diff --git a/group.go b/group.go
index 2a0cd0d..f8fee78 100644
--- a/group.go
+++ b/group.go
@@ -495,6 +495,10 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	newTree := group.tree.copy()
 	newTree.apply(proposals, senders)
 
+	if err := newTree.verifyProposedLeaves(&newGroupCtx, group.tree, proposals, senders, now); err != nil {
+		return fmt.Errorf("failed to verify proposals: %v", err)
+	}
+
 	newPrivTree := make([]hpkePrivateKey, len(newTree))
 	for i := range group.tree {
 		if i < len(newPrivTree) {
@@ -569,6 +573,10 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		}
 	}
 
+	if err := newTree.verifyMembers(); err != nil {
+		return fmt.Errorf("failed to verify new ratchet tree: %v", err)
+	}
+
 	newGroupCtx.confirmedTranscriptHash, err = authContent.confirmedTranscriptHashInput().hash(cs, group.interimTranscriptHash)
 	if err != nil {
 		return fmt.Errorf("failed to hash confirmed transcript hash input: %v", err)
diff --git a/tree.go b/tree.go
index bbe2c8d..c8c8eb1 100644
--- a/tree.go
+++ b/tree.go
@@ -765,6 +765,73 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 	return supportedCreds
 }
 
+// verifyProposedLeaves validates the leaf nodes introduced by the provided add
+// and update proposals, after they've been applied to the tree.
+func (tree ratchetTree) verifyProposedLeaves(ctx *groupContext, oldTree ratchetTree, proposals []proposal, senders []leafIndex, now func() time.Time) error {
+	supportedCreds := tree.supportedCreds()
+	for i, prop := range proposals {
+		options := leafNodeVerifyOptions{
+			cipherSuite:    ctx.cipherSuite,
+			groupID:        ctx.groupID,
+			supportedCreds: supportedCreds,
+			now:            now,
+		}
+
+		var node *leafNode
+		switch prop.proposalType {
+		case proposalTypeAdd:
+			node = &prop.add.keyPackage.leafNode
+		case proposalTypeUpdate:
+			node = &prop.update.leafNode
+			options.leafIndex = senders[i]
+			if node.leafNodeSource != leafNodeSourceUpdate {
+				return fmt.Errorf("mls: update leaf node source must be update")
+			}
+			if bytes.Equal(node.encryptionKey, oldTree.getLeaf(senders[i]).encryptionKey) {
+				return fmt.Errorf("mls: update doesn't change the encryption key")
+			}
+		default:
+			continue
+		}
+
+		if err := node.verify(&options); err != nil {
+			return fmt.Errorf("failed to verify leaf node: %v", err)
+		}
+	}
+	return nil
+}
+
+// verifyMembers checks that no two nodes share a key, and that the members of
+// the group support each other's credentials.
+func (tree ratchetTree) verifyMembers() error {
+	supportedCreds := tree.supportedCreds()
+	signatureKeys := make(map[string]struct{})
+	encryptionKeys := make(map[string]struct{})
+	for _, node := range tree {
+		if node == nil {
+			continue
+		}
+		encryptionKey := string(node.encryptionKey())
+		if _, dup := encryptionKeys[encryptionKey]; dup {
+			return fmt.Errorf("mls: duplicate encryption key in ratchet tree")
+		}
+		encryptionKeys[encryptionKey] = struct{}{}
+
+		if node.nodeType != nodeTypeLeaf {
+			continue
+		}
+		signatureKey := string(node.leafNode.signatureKey)
+		if _, dup := signatureKeys[signatureKey]; dup {
+			return fmt.Errorf("mls: duplicate signature key in ratchet tree")
+		}
+		signatureKeys[signatureKey] = struct{}{}
+		if _, ok := supportedCreds[node.leafNode.credential.credentialType]; !ok {
+			return fmt.Errorf("mls: credential type %v not supported by all members", node.leafNode.credential.credentialType)
+		}
+	}
+	return nil
+}
+
 func (tree ratchetTree) keys() (signatureKeys, encryptionKeys map[string]struct{}) {
 	signatureKeys = make(map[string]struct{})
 	encryptionKeys = make(map[string]struct{})
-- 
2.43.0


From 14424713e2af90df9a6e1440e200883be2da7641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:21 +0000
Subject: [PATCH 14/27] fix: reject update paths which reuse keys of parent
 nodes

The keys of an update path were only compared with those of leaf nodes, not with
those of parent nodes nor with each other.
---
 group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/group.go b/group.go
index f8fee78..105eb16 100644
--- a/group.go
+++ b/group.go
@@ -520,6 +520,11 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		// must change
 		signatureKeys, encryptionKeys := newTree.keys()
 		delete(signatureKeys, string(senderNode.signatureKey))
+		for _, node := range newTree {
+			if node != nil {
+				encryptionKeys[string(node.encryptionKey())] = struct{}{}
+			}
+		}
 		err := commit.path.leafNode.verify(&leafNodeVerifyOptions{
 			cipherSuite:    cs,
 			groupID:        group.groupContext.groupID,
@@ -533,10 +538,12 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			return fmt.Errorf("failed to verify leaf node: %v", err)
 		}
 
+		encryptionKeys[string(commit.path.leafNode.encryptionKey)] = struct{}{}
 		for _, updateNode := range commit.path.nodes {
 			if _, dup := encryptionKeys[string(updateNode.encryptionKey)]; dup {
 				return fmt.Errorf("mls: encryption key in update path already used in ratchet tree")
 			}
+			encryptionKeys[string(updateNode.encryptionKey)] = struct{}{}
 		}
 
 		if err := newTree.mergeUpdatePath(cs, senderLeafIndex, commit.path); err != nil {
-- 
2.43.0


From 25da2f305ac3cf5b74591105f9cc8e209c0707ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:25 +0000
Subject: [PATCH 15/27] fix: don't create invitations for invalid key packages

The resulting commit and Welcome would be rejected by everybody else.
---
 group.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/group.go b/group.go
index 105eb16..abd6a6e 100644
--- a/group.go
+++ b/group.go
@@ -689,6 +689,12 @@ func (group *Group) CreateWelcome(keyPkgs []KeyPackage) (*Welcome, []byte, error
 	}
 
 	// TODO: check proposal list validity per section 12.2
+	for _, keyPkg := range keyPkgs {
+		if err := keyPkg.verify(&group.groupContext); err != nil {
+			return nil, nil, fmt.Errorf("failed to verify key package: %v", err)
+		}
+	}
+
 	commit := commit{proposals: proposalOrRefs}
 
 	newGroupCtx := group.groupContext
@@ -697,6 +703,13 @@ func (group *Group) CreateWelcome(keyPkgs []KeyPackage) (*Welcome, []byte, error
 	newTree := group.tree.copy()
 	newTree.apply(proposals, []leafIndex{group.myLeafIndex})
 
+	if err := newTree.verifyProposedLeaves(&newGroupCtx, group.tree, proposals, nil, nil); err != nil {
+		return nil, nil, fmt.Errorf("failed to verify key packages: %v", err)
+	}
+	if err := newTree.verifyMembers(); err != nil {
+		return nil, nil, fmt.Errorf("failed to verify new ratchet tree: %v", err)
+	}
+
 	// TODO: only recompute parts of the tree affected by proposals
 	var err error
 	newGroupCtx.treeHash, err = newTree.computeRootTreeHash(cs)
-- 
2.43.0


From b4acc901ba34923335099dc4780d903d4f47bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:28 +0000
Subject: [PATCH 16/27] fix: check unmerged leaves when verifying parent hashes

RFC 9420 section 7.9.2 requires the resolution below a parent node to consist of
the node it was set by and its unmerged leaves only. Otherwise a parent key may
be known to nobody but the one who prepared the tree.
---
 tree.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/tree.go b/tree.go
index c8c8eb1..d6e09e3 100644
--- a/tree.go
+++ b/tree.go
@@ -1058,6 +1058,8 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 
 		isLeftDescendant := tree.findParentHash(tree.resolve(l), leftParentHash)
 		isRightDescendant := tree.findParentHash(tree.resolve(r), rightParentHash)
+		isLeftDescendant = isLeftDescendant && tree.verifyUnmergedResolution(l, exclude)
+		isRightDescendant = isRightDescendant && tree.verifyUnmergedResolution(r, exclude)
 		if isLeftDescendant == isRightDescendant {
 			return false
 		}
@@ -1065,6 +1067,28 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 	return true
 }
 
+// verifyUnmergedResolution checks that the resolution of a node's child consists
+// of a single node apart from the node's unmerged leaves below that child.
+func (tree ratchetTree) verifyUnmergedResolution(x nodeIndex, unmerged map[leafIndex]struct{}) bool {
+	numUnmerged, numOthers := 0, 0
+	for _, ni := range tree.resolve(x) {
+		li, isLeaf := ni.leafIndex()
+		if _, ok := unmerged[li]; isLeaf && ok {
+			numUnmerged++
+		} else {
+			numOthers++
+		}
+	}
+
+	want := 0
+	for li := range unmerged {
+		if commonAncestor(x, li.nodeIndex()) == x {
+			want++
+		}
+	}
+	return numOthers == 1 && numUnmerged == want
+}
+
 func (tree ratchetTree) findParentHash(nodeIndices []nodeIndex, parentHash []byte) bool {
 	for _, x := range nodeIndices {
 		node := tree.get(x)
-- 
2.43.0


From a259c2770e48731b87278abb7f8586ebea8cccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:32 +0000
Subject: [PATCH 17/27] fix: limit the generation of received messages

A member could make others derive up to 2^32 secrets with a single message.
---
 group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/group.go b/group.go
index abd6a6e..b0fd980 100644
--- a/group.go
+++ b/group.go
@@ -9,6 +9,9 @@ import (
 	"golang.org/x/crypto/cryptobyte"
 )
 
+// maxGeneration is the maximum number of messages a member can send per epoch.
+const maxGeneration = 1 << 20
+
 type pendingProposal struct {
 	ref      proposalRef
 	proposal *proposal
@@ -383,6 +386,10 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
 	}
 
+	if senderData.generation > maxGeneration {
+		return nil, fmt.Errorf("mls: generation %v is too high", senderData.generation)
+	}
+
 	// TODO: limit number of iterations
 	// TODO: erase knowledge about used generations to ensure forward secrecy
 	for secret.generation != senderData.generation {
-- 
2.43.0


From 260ff335e7a6d0a81d75a4df3762e5b6056f58f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:36 +0000
Subject: [PATCH 18/27] fix: use a new generation for each message

All messages of a member in an epoch were encrypted with the same key. Recipients
which discard used keys could only read the first one.
---
 group.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index b0fd980..3e9b1a4 100644
--- a/group.go
+++ b/group.go
@@ -33,6 +33,9 @@ type Group struct {
 	signaturePriv signaturePrivateKey
 
 	pendingProposals []pendingProposal
+
+	// Next secrets to use for our own messages, derived on first use
+	applicationRatchet, handshakeRatchet ratchetSecret
 }
 
 // CreateGroup creates a new group with a single member.
@@ -636,6 +639,8 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	group.epochSecret = newEpochSecret
 	group.initSecret = newInitSecret
 	group.pendingProposals = nil // TODO: only clear proposals we've consumed
+	group.applicationRatchet = ratchetSecret{}
+	group.handshakeRatchet = ratchetSecret{}
 	return nil
 }
 
@@ -877,7 +882,12 @@ func (group *Group) CreateApplicationMessage(data []byte) ([]byte, error) {
 func (group *Group) encryptPrivateMessage(framedContent *framedContent, privContent *privateMessageContent) ([]byte, error) {
 	cs := group.groupContext.cipherSuite
 
-	senderData, err := newSenderData(group.myLeafIndex, 0) // TODO: set generation > 0
+	ratchet := &group.handshakeRatchet
+	if framedContent.contentType == contentTypeApplication {
+		ratchet = &group.applicationRatchet
+	}
+
+	senderData, err := newSenderData(group.myLeafIndex, ratchet.generation)
 	if err != nil {
 		return nil, fmt.Errorf("failed to create sender data: %v", err)
 	}
@@ -897,6 +907,9 @@ func (group *Group) encryptPrivateMessage(framedContent *framedContent, privCont
 	if err != nil {
 		return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
 	}
+	if ratchet.secret != nil {
+		secret = *ratchet
+	}
 
 	senderDataSecret, err := cs.deriveSecret(group.epochSecret, secretLabelSenderData)
 	if err != nil {
@@ -917,6 +930,11 @@ func (group *Group) encryptPrivateMessage(framedContent *framedContent, privCont
 		return nil, fmt.Errorf("failed to marshal private message: %v", err)
 	}
 
+	*ratchet, err = secret.deriveNext(cs)
+	if err != nil {
+		return nil, fmt.Errorf("failed to derive next ratchet secret: %v", err)
+	}
+
 	return rawMsg, nil
 }
 
-- 
2.43.0


From b8581cad99398f0c2ecee141dcf70c46455a95e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:40 +0000
Subject: [PATCH 19/27] fix: accept key packages at the very start of their
 lifetime

A key package generated exactly on a second boundary was considered not yet valid.
---
 tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree.go b/tree.go
index d6e09e3..063a6e4 100644
--- a/tree.go
+++ b/tree.go
@@ -221,6 +221,9 @@ func (lt *lifetime) verify(t time.Time) bool {
 		return false
 	}
 
+	if t.Equal(notBefore) {
+		return true
+	}
 	return t.After(notBefore) && notAfter.After(t)
 }
 
-- 
2.43.0


From b7609ac28eb56ee378a8506342bcd38ce2c5c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:44 +0000
Subject: [PATCH 20/27] fix: accept default extensions not listed in
 capabilities

RFC 9420 section 7.2 only requires non-default extensions to be listed.
---
 tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree.go b/tree.go
index 063a6e4..d5f4541 100644
--- a/tree.go
+++ b/tree.go
@@ -433,6 +433,10 @@ func (node *leafNode) verify(options *leafNodeVerifyOptions) error {
 		supportedExts[et] = struct{}{}
 	}
 	for _, ext := range node.extensions {
+		switch ext.extensionType {
+		case extensionTypeApplicationID, extensionTypeRatchetTree, extensionTypeRequiredCapabilities, extensionTypeExternalPub, extensionTypeExternalSenders:
+			continue // default extensions don't need to be listed
+		}
 		if _, ok := supportedExts[ext.extensionType]; !ok {
 			return fmt.Errorf("mls: extension type %d used by leaf node not supported by that leaf node", ext.extensionType)
 		}
-- 
2.43.0


From f658e9267573e7515dfc21e2e9c72f174b54df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:36 +0000
Subject: [PATCH 21/27] fix: reject path secrets which are too short

Expanding a secret shorter than the hash size panics.
---
 ciphersuite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index ccf6fef..1f14b88 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -187,6 +187,9 @@ func (cs CipherSuite) expandWithLabel(secret, label, context []byte, length uint
 	}
 
 	_, kdf, _ := cs.hpke().Params()
+	if len(secret) < kdf.ExtractSize() {
+		return nil, fmt.Errorf("mls: secret too short: got %d bytes, want at least %d", len(secret), kdf.ExtractSize())
+	}
 	return kdf.Expand(secret, kdfLabel, uint(length)), nil
 }
 
-- 
2.43.0


From 6af3dbaacc5a5e388ba28add0c7ce9e96c16341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:06 +0000
Subject: [PATCH 22/27] fix: check which node of a resolution holds the parent
 hash

---
 tree.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tree.go b/tree.go
index d5f4541..d2246b6 100644
--- a/tree.go
+++ b/tree.go
@@ -1065,8 +1065,8 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 
 		isLeftDescendant := tree.findParentHash(tree.resolve(l), leftParentHash)
 		isRightDescendant := tree.findParentHash(tree.resolve(r), rightParentHash)
-		isLeftDescendant = isLeftDescendant && tree.verifyUnmergedResolution(l, exclude)
-		isRightDescendant = isRightDescendant && tree.verifyUnmergedResolution(r, exclude)
+		isLeftDescendant = isLeftDescendant && tree.verifyUnmergedResolution(l, exclude, leftParentHash)
+		isRightDescendant = isRightDescendant && tree.verifyUnmergedResolution(r, exclude, rightParentHash)
 		if isLeftDescendant == isRightDescendant {
 			return false
 		}
@@ -1075,15 +1075,17 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 }
 
 // verifyUnmergedResolution checks that the resolution of a node's child consists
-// of a single node apart from the node's unmerged leaves below that child.
-func (tree ratchetTree) verifyUnmergedResolution(x nodeIndex, unmerged map[leafIndex]struct{}) bool {
-	numUnmerged, numOthers := 0, 0
+// of a single node with the given parent hash apart from the node's unmerged
+// leaves below that child.
+func (tree ratchetTree) verifyUnmergedResolution(x nodeIndex, unmerged map[leafIndex]struct{}, parentHash []byte) bool {
+	numUnmerged := 0
+	var others []nodeIndex
 	for _, ni := range tree.resolve(x) {
 		li, isLeaf := ni.leafIndex()
 		if _, ok := unmerged[li]; isLeaf && ok {
 			numUnmerged++
 		} else {
-			numOthers++
+			others = append(others, ni)
 		}
 	}
 
@@ -1093,7 +1095,7 @@ func (tree ratchetTree) verifyUnmergedResolution(x nodeIndex, unmerged map[leafI
 			want++
 		}
 	}
-	return numOthers == 1 && numUnmerged == want
+	return len(others) == 1 && numUnmerged == want && tree.findParentHash(others, parentHash)
 }
 
 func (tree ratchetTree) findParentHash(nodeIndices []nodeIndex, parentHash []byte) bool {
-- 
2.43.0


From 34b1774b3a20fbb5356a2e5cc2017e4279ac80c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:20 +0000
Subject: [PATCH 23/27] fix: reject path secrets which are too long

---
 ciphersuite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciphersuite.go b/ciphersuite.go
index 1f14b88..c4cc257 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -187,8 +187,8 @@ func (cs CipherSuite) expandWithLabel(secret, label, context []byte, length uint
 	}
 
 	_, kdf, _ := cs.hpke().Params()
-	if len(secret) < kdf.ExtractSize() {
-		return nil, fmt.Errorf("mls: secret too short: got %d bytes, want at least %d", len(secret), kdf.ExtractSize())
+	if len(secret) != kdf.ExtractSize() {
+		return nil, fmt.Errorf("mls: invalid secret length: got %d bytes, want %d", len(secret), kdf.ExtractSize())
 	}
 	return kdf.Expand(secret, kdfLabel, uint(length)), nil
 }
-- 
2.43.0


From 1c8c0701ab4a6d95cf03acf6527559a0373db528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:12:00 +0000
Subject: [PATCH 24/27] fix: refuse to send more messages than can be received

---
 group.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/group.go b/group.go
index 3e9b1a4..911236b 100644
--- a/group.go
+++ b/group.go
@@ -887,6 +887,10 @@ func (group *Group) encryptPrivateMessage(framedContent *framedContent, privCont
 		ratchet = &group.applicationRatchet
 	}
 
+	if ratchet.generation > maxGeneration {
+		return nil, fmt.Errorf("mls: too many messages sent in this epoch")
+	}
+
 	senderData, err := newSenderData(group.myLeafIndex, ratchet.generation)
 	if err != nil {
 		return nil, fmt.Errorf("failed to create sender data: %v", err)
-- 
2.43.0


From 1070149f36ad8c9d01bc3d3af7356ef1d524ae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:07 +0000
Subject: [PATCH 25/27] fix: copy the identity of basic credentials

---
 crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 2aae887..01fc986 100644
--- a/crypto.go
+++ b/crypto.go
@@ -34,7 +34,7 @@ type Credential struct {
 func NewBasicCredential(identity []byte) *Credential {
 	return &Credential{
 		credentialType: credentialTypeBasic,
-		identity:       identity,
+		identity:       append([]byte(nil), identity...),
 	}
 }
 
-- 
2.43.0


From 721ea8fc7057356f84a387f1ccc693b22ba454bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:07 +0000
Subject: [PATCH 26/27] fix: don't retain the caller's group ID and leaf node
 in CreateGroup

---
 group.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 911236b..838a4ef 100644
--- a/group.go
+++ b/group.go
@@ -46,8 +46,12 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 		return nil, fmt.Errorf("mls: invalid cipher suite %d", cs)
 	}
 
+	// Don't hold on to memory owned by the caller
+	groupID = append(GroupID(nil), groupID...)
+	myLeafNode := keyPairPkg.Public.leafNode
+
 	tree := make(ratchetTree, 1)
-	tree.add(&keyPairPkg.Public.leafNode)
+	tree.add(&myLeafNode)
 
 	privTree := make([]hpkePrivateKey, len(tree))
 	privTree[0] = keyPairPkg.Private.EncryptionKey
-- 
2.43.0


From 8923766e7af63b9148bc05c502c5d23fa595990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:08:30 +0000
Subject: [PATCH 27/27] fix: return copies of key package references from
 Welcome.NewMembers

---
 group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 838a4ef..72396fe 100644
--- a/group.go
+++ b/group.go
@@ -1269,7 +1269,7 @@ func (w *Welcome) marshal(b *cryptobyte.Builder) {
 func (w *Welcome) NewMembers() []KeyPackageRef {
 	refs := make([]KeyPackageRef, len(w.secrets))
 	for i, sec := range w.secrets {
-		refs[i] = sec.newMember
+		refs[i] = append(KeyPackageRef(nil), sec.newMember...)
 	}
 	return refs
 }
-- 
2.43.0

