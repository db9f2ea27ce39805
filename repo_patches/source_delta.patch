From 5f67d9cfe8d41a1dee2265291c3fc8ff80068fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 1/7] fix: domaintree: do not panic when deleting names of the
 maximum number of labels

Delete and DeleteSubdomains keep one node per label and one for the root,
so a name of domain.MaxLabels labels needs domain.MaxLabels+1 slots.
---
 domaintree/domaintree.go                      | 8 ++++----
 uintX/domaintree16/domaintree.go              | 8 ++++----
 uintX/domaintree32/domaintree.go              | 8 ++++----
 uintX/domaintree64/domaintree.go              | 8 ++++----
 uintX/domaintree8/domaintree.go               | 8 ++++----
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 8 ++++----
 6 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index 87fabef..df4a0c8 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -120,8 +120,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -148,8 +148,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index 4306e21..dd2ced5 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index 063fc45..cc5cab5 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 09c2574..12194bc 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 34719c3..6938b8b 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index fd04450..b23b2a5 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
-- 
2.43.0


From 9d2a3bc771d21bda08784320fe47ec707ceed83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 2/7] fix: domaintree: make InplaceInsert work on trees made by
 Insert

Insert leaves branches of a new node nil; InplaceInsert only prepared
the branches of the root and dereferenced nil on such nodes.
---
 domaintree/domaintree.go                      | 8 ++++----
 uintX/domaintree16/domaintree.go              | 8 ++++----
 uintX/domaintree32/domaintree.go              | 8 ++++----
 uintX/domaintree64/domaintree.go              | 8 ++++----
 uintX/domaintree8/domaintree.go               | 8 ++++----
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 8 ++++----
 6 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index df4a0c8..fe15d0e 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -54,11 +54,11 @@ func (n *Node) Insert(d domain.Name, v interface{}) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v interface{}) {
-	if n.branches == nil {
-		n.branches = dltree.NewTree()
-	}
-
 	d.GetLabels(func(label string) error {
+		if n.branches == nil {
+			n.branches = dltree.NewTree()
+		}
+
 		item, ok := n.branches.RawGet(label)
 		if ok {
 			n = item.(*Node)
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index dd2ced5..6dec400 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -52,11 +52,11 @@ func (n *Node) Insert(d domain.Name, v uint16) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint16) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index cc5cab5..b5da319 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -52,11 +52,11 @@ func (n *Node) Insert(d domain.Name, v uint32) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint32) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 12194bc..204a082 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -52,11 +52,11 @@ func (n *Node) Insert(d domain.Name, v uint64) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint64) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 6938b8b..71b6194 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -52,11 +52,11 @@ func (n *Node) Insert(d domain.Name, v uint8) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint8) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index b23b2a5..1714aba 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -52,11 +52,11 @@ func (n *Node) Insert(d domain.Name, v uint{{.bits}}) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint{{.bits}}) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
+		if n.branches == nil {
+			n.branches = newLabelTree()
+		}
+
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
-- 
2.43.0


From b3679865fdee8f8b4c51a0f58d9b5897d08bfec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:21 +0000
Subject: [PATCH 3/7] fix: domaintree: return value stored for the root domain
 by Get

---
 domaintree/domaintree.go                      | 3 +--
 uintX/domaintree16/domaintree.go              | 3 +--
 uintX/domaintree32/domaintree.go              | 3 +--
 uintX/domaintree64/domaintree.go              | 3 +--
 uintX/domaintree8/domaintree.go               | 3 +--
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 3 +--
 6 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index fe15d0e..47a5d4c 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -93,8 +93,7 @@ func (n *Node) Get(d domain.Name) (interface{}, bool) {
 		return nil, false
 	}
 
-	var value interface{}
-	hasValue := false
+	value, hasValue := n.value, n.hasValue
 
 	d.GetLabels(func(label string) error {
 		item, ok := n.branches.RawGet(label)
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index 6dec400..08430d5 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -91,8 +91,7 @@ func (n *Node) Get(d domain.Name) (uint16, bool) {
 		return 0, false
 	}
 
-	var value uint16
-	hasValue := false
+	value, hasValue := n.value, n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index b5da319..265be76 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -91,8 +91,7 @@ func (n *Node) Get(d domain.Name) (uint32, bool) {
 		return 0, false
 	}
 
-	var value uint32
-	hasValue := false
+	value, hasValue := n.value, n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 204a082..3d9fb67 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -91,8 +91,7 @@ func (n *Node) Get(d domain.Name) (uint64, bool) {
 		return 0, false
 	}
 
-	var value uint64
-	hasValue := false
+	value, hasValue := n.value, n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 71b6194..d33b37c 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -91,8 +91,7 @@ func (n *Node) Get(d domain.Name) (uint8, bool) {
 		return 0, false
 	}
 
-	var value uint8
-	hasValue := false
+	value, hasValue := n.value, n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index 1714aba..0bf945c 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -91,8 +91,7 @@ func (n *Node) Get(d domain.Name) (uint{{.bits}}, bool) {
 		return 0, false
 	}
 
-	var value uint{{.bits}}
-	hasValue := false
+	value, hasValue := n.value, n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
-- 
2.43.0


From 09f3bd3cdb36011c11febb39b64cdf341be68bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 4/7] fix: iptree (uintX): remove all contained networks by
 IPv6 networks shorter than 64 bits

DeleteByNet removed nothing unless exactly the given network was in the
tree, unlike the generic tree and unlike longer or IPv4 networks.
---
 uintX/iptree16/iptree.go              | 7 ++++++-
 uintX/iptree32/iptree.go              | 7 ++++++-
 uintX/iptree64/iptree.go              | 7 ++++++-
 uintX/iptree8/iptree.go               | 7 ++++++-
 uintX/iptree{{.bits}}/iptree.{{.ext}} | 7 ++++++-
 5 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/uintX/iptree16/iptree.go b/uintX/iptree16/iptree.go
index 9a4f7ec..90bd2d5 100644
--- a/uintX/iptree16/iptree.go
+++ b/uintX/iptree16/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree32/iptree.go b/uintX/iptree32/iptree.go
index 6a505d6..2f342f6 100644
--- a/uintX/iptree32/iptree.go
+++ b/uintX/iptree32/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree64/iptree.go b/uintX/iptree64/iptree.go
index 6ffa3ae..d757585 100644
--- a/uintX/iptree64/iptree.go
+++ b/uintX/iptree64/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree8/iptree.go b/uintX/iptree8/iptree.go
index 9a98de8..a5a00df 100644
--- a/uintX/iptree8/iptree.go
+++ b/uintX/iptree8/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree{{.bits}}/iptree.{{.ext}} b/uintX/iptree{{.bits}}/iptree.{{.ext}}
index d3790c3..20ff2a5 100644
--- a/uintX/iptree{{.bits}}/iptree.{{.ext}}
+++ b/uintX/iptree{{.bits}}/iptree.{{.ext}}
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
-- 
2.43.0


From 30319b5bba3bc54f1949d186666246a69e37e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 5/7] fix: domain: check for space before a letter in
 MakeHumanReadableLabel

---
 domain/label.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/label.go b/domain/label.go
index ef43c7d..441ef59 100644
--- a/domain/label.go
+++ b/domain/label.go
@@ -59,6 +59,10 @@ func MakeHumanReadableLabel(s string) string {
 
 			j += 4
 		} else if c >= 'A' && c <= 'Z' {
+			if j >= len(label) {
+				return string(label[:j])
+			}
+
 			label[j] = c | 0x20
 			j++
 		} else {
-- 
2.43.0


From d37475090a090b6dac5dded3a1de020faffbf65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 6/7] fix: iptree: find target of UpdateDescendants in IPv6
 subtree in one way

An inner node which happens to be the root of a /64 subtree was taken for
the target network although the network isn't in the tree.
---
 iptree/iptree.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/iptree/iptree.go b/iptree/iptree.go
index 2912ee2..be910c9 100644
--- a/iptree/iptree.go
+++ b/iptree/iptree.go
@@ -145,11 +145,7 @@ func (t *Tree) UpdateDescendants(n *net.IPNet, callback UpdateDescendantsCallbac
 		s, ok := target.Value.(subTree64)
 		if ok {
 			s2 := (*numtree.Node64)(s)
-			if s2.Key == LSKey && int(s2.Bits) == LSBits {
-				target = s2
-			} else {
-				target = s2.FindNode(LSKey, LSBits)
-			}
+			target = s2.FindNode(LSKey, LSBits)
 			if target == nil {
 				return
 			}
-- 
2.43.0


From 569afb01d57b2111c5d62ccfbf2d5b0252150b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 7/7] fix: numtree: return no value when matching on an empty
 tree

Match on nil *Node32 or *Node64 returned the nil pointer wrapped in
a non-nil interface.
---
 numtree/node32.go | 2 +-
 numtree/node64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/numtree/node32.go b/numtree/node32.go
index cc1c2c1..8c30e6c 100644
--- a/numtree/node32.go
+++ b/numtree/node32.go
@@ -108,7 +108,7 @@ func (n *Node32) Match(key uint32, bits int) (interface{}, bool) {
 	// If tree is empty -
 	if n == nil {
 		// report nothing.
-		return n, false
+		return nil, false
 	}
 
 	// Adjust bits.
diff --git a/numtree/node64.go b/numtree/node64.go
index 304f5d6..a0b3553 100644
--- a/numtree/node64.go
+++ b/numtree/node64.go
@@ -112,7 +112,7 @@ func (n *Node64) Enumerate() chan *Node64 {
 // Match locates node which key is equal to or "contains" the key passed as argument.
 func (n *Node64) Match(key uint64, bits int) (interface{}, bool) {
 	if n == nil {
-		return n, false
+		return nil, false
 	}
 
 	if bits < 0 {
-- 
2.43.0

