From 579b89233b4514e943fd75526e1e1adcd0e0b7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 01/84] fix: reject a list move to an index out of range before
 changing the list

---
 ecore/basicelist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecore/basicelist.go b/ecore/basicelist.go
index 7874fec..bfc9961 100644
--- a/ecore/basicelist.go
+++ b/ecore/basicelist.go
@@ -9,6 +9,8 @@
 
 package ecore
 
+import "strconv"
+
 type listCallBacks interface {
 	DidAdd(index int, elem any)
 
@@ -105,6 +107,9 @@ func (list *BasicEList) doInsertAll(index int, collection Collection) bool {
 }
 
 func (list *BasicEList) doMove(oldIndex, newIndex int) any {
+	if size := len(list.data); newIndex < 0 || newIndex >= size {
+		panic("Index out of bounds: newIndex=" + strconv.Itoa(newIndex) + " size=" + strconv.Itoa(size))
+	}
 	object := list.data[oldIndex]
 	if oldIndex != newIndex {
 		if newIndex < oldIndex {
-- 
2.43.0


From 052dddc7ec96252f1dedbb138ad22cb2e31c577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 02/84] fix: keep unique lists free of duplicates when adding a
 collection smaller than the list

---
 ecore/abstractelist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecore/abstractelist.go b/ecore/abstractelist.go
index 61a12d3..79e8558 100644
--- a/ecore/abstractelist.go
+++ b/ecore/abstractelist.go
@@ -61,8 +61,7 @@ func (list *AbstractEList) getNonDuplicates(collection Collection) Collection {
 			hashSet.Remove(it.Next())
 		}
 	} else {
-		for it := hashSet.Iterator(); it.Next(); {
-			v := it.Value()
+		for _, v := range hashSet.Values() {
 			if collection.Contains(v) {
 				hashSet.Remove(v)
 			}
-- 
2.43.0


From ef258f08085b3b21b615f594e5dee9ffc55a5c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 03/84] fix: unsetting a many-valued containment or
 bidirectional feature clears its list

---
 ecore/abstracteobject.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index d70dbfa..528f825 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -580,7 +580,11 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 	} else if IsBidirectional(dynamicFeature) || IsContains(dynamicFeature) {
 		// inverse - opposite
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
-		if oldValue != nil {
+		if oldList, _ := oldValue.(EList); oldList != nil {
+			// list: inverses are updated and notifications are sent by the list
+			oldList.Clear()
+			properties.EDynamicUnset(dynamicFeatureID)
+		} else if oldValue != nil {
 			var notifications ENotificationChain
 			oldObject, _ := oldValue.(EObject)
 
-- 
2.43.0


From adfff511c2300990659bd2691ad40086a5608a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 04/84] fix: setting a many-valued containment or bidirectional
 feature replaces the content of its list

---
 ecore/abstracteobject.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 528f825..64fa0fe 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -443,7 +443,15 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 	} else if IsBidirectional(dynamicFeature) || IsContains(dynamicFeature) {
 		// inverse - opposite
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
-		if oldValue != newValue {
+		if newList, _ := newValue.(EList); newList != nil {
+			// list: inverses are updated and notifications are sent by the list
+			if oldValue != newValue {
+				newContent := append([]any{}, newList.ToArray()...)
+				list := o.eDynamicPropertiesGet(properties, dynamicFeature, dynamicFeatureID, false).(EList)
+				list.Clear()
+				list.AddAll(NewImmutableEList(newContent))
+			}
+		} else if oldValue != newValue {
 			var notifications ENotificationChain
 			oldObject, _ := oldValue.(EObjectInternal)
 			newObject, _ := newValue.(EObjectInternal)
-- 
2.43.0


From 9530a62de4d6c85e2c199f1f95a2b7d3c748e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 05/84] fix: notify the right elements when a list is added to
 itself

---
 ecore/basicenotifyinglist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecore/basicenotifyinglist.go b/ecore/basicenotifyinglist.go
index b6ca2bb..23a2521 100644
--- a/ecore/basicenotifyinglist.go
+++ b/ecore/basicenotifyinglist.go
@@ -197,6 +197,10 @@ func (list *BasicENotifyingList) doInsertAll(index int, l Collection) bool {
 		return false
 	}
 	notifyingList := list.asAbstractENotifyingList()
+	if l == Collection(list.asEList()) {
+		// the list is inserted in itself: keep the content it has before the insertion
+		l = NewImmutableEList(append([]any{}, l.ToArray()...))
+	}
 	result := notifyingList.performInsertAll(index, l)
 	var notifications ENotificationChain = NewNotificationChain()
 	for it := l.Iterator(); it.HasNext(); {
-- 
2.43.0


From 35e7964f75214f42b11294b17a4bb01071b15d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 06/84] fix: an empty list feature of a dynamic or reflective
 object is not set

---
 ecore/dynamiceobject_impl.go    | 6 +++++-
 ecore/reflectiveeobject_impl.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecore/dynamiceobject_impl.go b/ecore/dynamiceobject_impl.go
index bbae8dd..afc51b9 100644
--- a/ecore/dynamiceobject_impl.go
+++ b/ecore/dynamiceobject_impl.go
@@ -70,7 +70,11 @@ func (o *DynamicEObjectImpl) EDynamicUnset(dynamicFeatureID int) {
 }
 
 func (o *DynamicEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
-	return o.properties[dynamicFeatureID] != nil
+	value := o.properties[dynamicFeatureID]
+	if list, _ := value.(EList); list != nil {
+		return !list.Empty()
+	}
+	return value != nil
 }
 
 func (o *DynamicEObjectImpl) EFeatureID(feature EStructuralFeature) int {
diff --git a/ecore/reflectiveeobject_impl.go b/ecore/reflectiveeobject_impl.go
index 6e0a256..fe01d8c 100644
--- a/ecore/reflectiveeobject_impl.go
+++ b/ecore/reflectiveeobject_impl.go
@@ -57,7 +57,11 @@ func (o *ReflectiveEObjectImpl) EDynamicUnset(dynamicFeatureID int) {
 }
 
 func (o *ReflectiveEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
-	return o.getProperties()[dynamicFeatureID] != nil
+	value := o.getProperties()[dynamicFeatureID]
+	if list, _ := value.(EList); list != nil {
+		return !list.Empty()
+	}
+	return value != nil
 }
 
 func (o *ReflectiveEObjectImpl) getProperties() []any {
-- 
2.43.0


From 253f86683c24ce9af3af5b3fdb6719f4de111133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 07/84] fix: notifications of an attribute carry its default
 value for an unset value

---
 ecore/abstracteobject.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 64fa0fe..8a1d6c5 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -501,6 +501,9 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 
 		// notify
 		if o.ENotificationRequired() {
+			if _, isAttribute := dynamicFeature.(EAttribute); isAttribute && oldValue == nil {
+				oldValue = dynamicFeature.GetDefaultValue()
+			}
 			o.ENotify(NewNotificationByFeature(o.AsEObject(), SET, dynamicFeature, oldValue, newValue, NO_INDEX))
 		}
 	}
@@ -635,7 +638,14 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
 		properties.EDynamicUnset(dynamicFeatureID)
 		if o.ENotificationRequired() {
-			o.ENotify(NewNotificationByFeature(o.AsEObject(), UNSET, dynamicFeature, oldValue, nil, NO_INDEX))
+			var newValue any
+			if _, isAttribute := dynamicFeature.(EAttribute); isAttribute {
+				newValue = dynamicFeature.GetDefaultValue()
+				if oldValue == nil {
+					oldValue = newValue
+				}
+			}
+			o.ENotify(NewNotificationByFeature(o.AsEObject(), UNSET, dynamicFeature, oldValue, newValue, NO_INDEX))
 		}
 	}
 }
-- 
2.43.0


From 2f4c2a9e37f8784e4ecc0f1c81c01362c3c005c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 08/84] fix: unsetting a many-valued feature of a dynamic
 object keeps its list attached

---
 ecore/abstracteobject.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 8a1d6c5..2105e03 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -594,7 +594,6 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 		if oldList, _ := oldValue.(EList); oldList != nil {
 			// list: inverses are updated and notifications are sent by the list
 			oldList.Clear()
-			properties.EDynamicUnset(dynamicFeatureID)
 		} else if oldValue != nil {
 			var notifications ENotificationChain
 			oldObject, _ := oldValue.(EObject)
@@ -636,6 +635,10 @@ func (o *AbstractEObject) eDynamicPropertiesUnset(properties EDynamicProperties,
 		}
 	} else {
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
+		if oldList, _ := oldValue.(EList); oldList != nil {
+			oldList.Clear()
+			return
+		}
 		properties.EDynamicUnset(dynamicFeatureID)
 		if o.ENotificationRequired() {
 			var newValue any
-- 
2.43.0


From 9a6ec54b8319cc2c7b367b5e6f6c7ae7d910c71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 09/84] fix: setting a many-valued feature of a dynamic object
 replaces the content of its list instead of sharing the given list

---
 ecore/abstracteobject.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 2105e03..1eb7f77 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -445,12 +445,7 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
 		if newList, _ := newValue.(EList); newList != nil {
 			// list: inverses are updated and notifications are sent by the list
-			if oldValue != newValue {
-				newContent := append([]any{}, newList.ToArray()...)
-				list := o.eDynamicPropertiesGet(properties, dynamicFeature, dynamicFeatureID, false).(EList)
-				list.Clear()
-				list.AddAll(NewImmutableEList(newContent))
-			}
+			o.eDynamicPropertiesSetList(properties, dynamicFeature, dynamicFeatureID, newList)
 		} else if oldValue != newValue {
 			var notifications ENotificationChain
 			oldObject, _ := oldValue.(EObjectInternal)
@@ -495,6 +490,10 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 			}
 		}
 	} else {
+		if newList, _ := newValue.(EList); newList != nil && dynamicFeature.IsMany() {
+			o.eDynamicPropertiesSetList(properties, dynamicFeature, dynamicFeatureID, newList)
+			return
+		}
 		// basic set
 		oldValue := properties.EDynamicGet(dynamicFeatureID)
 		properties.EDynamicSet(dynamicFeatureID, newValue)
@@ -509,6 +508,16 @@ func (o *AbstractEObject) eDynamicPropertiesSet(properties EDynamicProperties, d
 	}
 }
 
+// eDynamicPropertiesSetList replaces the content of the list of a many-valued feature
+func (o *AbstractEObject) eDynamicPropertiesSetList(properties EDynamicProperties, dynamicFeature EStructuralFeature, dynamicFeatureID int, newList EList) {
+	list := o.eDynamicPropertiesGet(properties, dynamicFeature, dynamicFeatureID, false).(EList)
+	if list != newList {
+		newContent := append([]any{}, newList.ToArray()...)
+		list.Clear()
+		list.AddAll(NewImmutableEList(newContent))
+	}
+}
+
 // EIsSet ...
 func (o *AbstractEObject) EIsSet(feature EStructuralFeature) bool {
 	featureID := o.AsEObjectInternal().EFeatureID(feature)
-- 
2.43.0


From 9cade3b89f729f128a83c03d3ac34b7ff2bfb795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 10/84] fix: report the right index for elements added as a
 collection

---
 ecore/basicelist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecore/basicelist.go b/ecore/basicelist.go
index bfc9961..294055e 100644
--- a/ecore/basicelist.go
+++ b/ecore/basicelist.go
@@ -73,12 +73,13 @@ func (list *BasicEList) doAdd(e any) {
 }
 
 func (list *BasicEList) doAddAll(collection Collection) bool {
+	size := len(list.data)
 	data := collection.ToArray()
 	list.data = append(list.data, data...)
 	// events
 	listCallbacks := list.asEListCallbacks()
 	for i, element := range data {
-		listCallbacks.DidAdd(i, element)
+		listCallbacks.DidAdd(size+i, element)
 	}
 	listCallbacks.DidChange()
 	return len(data) != 0
-- 
2.43.0


From 590f1e891ddde0163a9ad3c455f92a971ee48be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 11/84] fix: detach the adapters of a notifier when its adapter
 list is cleared or an adapter is replaced

---
 ecore/abstractenotifier.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ecore/abstractenotifier.go b/ecore/abstractenotifier.go
index 8046305..f60f596 100644
--- a/ecore/abstractenotifier.go
+++ b/ecore/abstractenotifier.go
@@ -65,6 +65,19 @@ func (l *notifierAdapterList) DidRemove(index int, elem any) {
 	adapter.UnSetTarget(notifier)
 }
 
+func (l *notifierAdapterList) DidSet(index int, newElem any, oldElem any) {
+	if newElem != oldElem {
+		l.DidRemove(index, oldElem)
+		l.DidAdd(index, newElem)
+	}
+}
+
+func (l *notifierAdapterList) DidClear(oldObjects []any) {
+	for i, elem := range oldObjects {
+		l.DidRemove(i, elem)
+	}
+}
+
 type AbstractENotifier struct {
 	interfaces any
 }
-- 
2.43.0


From 1323bbed0293f3ba1be1aa3eea7577aa591a62d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 12/84] fix: build the authority of a uri from its components

---
 ecore/uri.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ecore/uri.go b/ecore/uri.go
index 0e431a0..5926aef 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -284,18 +284,16 @@ func (uri *URI) Authority() string {
 	if len(uri.host) == 0 {
 		return ""
 	}
-	hostIndex := strings.Index(uri.rawURI, uri.host)
-	var first int
-	if len(uri.username) > 0 {
-		first = strings.Index(uri.rawURI, uri.username)
-	} else {
-		first = hostIndex
-	}
-	last := hostIndex + len(uri.host)
+	authority := uri.host
 	if len(uri.port) > 0 {
-		last += len(uri.port) + 1
+		authority += ":" + uri.port
+	}
+	if len(uri.password) > 0 {
+		authority = uri.username + ":" + uri.password + "@" + authority
+	} else if len(uri.username) > 0 {
+		authority = uri.username + "@" + authority
 	}
-	return uri.rawURI[first:last]
+	return authority
 }
 
 func (uri *URI) String() string {
-- 
2.43.0


From f08741057bafe8c4fb4ea25a71a0acf175fd06fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 13/84] fix: split the port from a bracketed host at the right
 colon

---
 ecore/uri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/uri.go b/ecore/uri.go
index 5926aef..e7eef60 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -219,7 +219,7 @@ func ParseURI(rawURI string) (*URI, error) {
 				uri.username = url.User.Username()
 				uri.password, _ = url.User.Password()
 			}
-			if i := strings.IndexByte(url.Host, ':'); i >= 0 {
+			if i := strings.LastIndexByte(url.Host, ':'); i > strings.LastIndexByte(url.Host, ']') {
 				uri.host = url.Host[0:i]
 				uri.port = url.Host[i+1:]
 			} else {
-- 
2.43.0


From ce332f29723d2aa593eb71c7a489bd28af069480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 14/84] fix: a path with several leading slashes is not written
 as an authority

---
 ecore/uri.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecore/uri.go b/ecore/uri.go
index e7eef60..50433f0 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -166,6 +166,9 @@ func NewURIFromComponents(scheme string, username string, password string, host
 			s.WriteRune(':')
 			writeComponent(portComponent, port)
 		}
+	} else if strings.HasPrefix(path, "//") {
+		// the start of the path must not be read as an authority
+		s.WriteString("//")
 	}
 	writeComponent(pathComponent, path)
 	if len(query) > 0 {
-- 
2.43.0


From d777b314131aa38edf993922cc333339c456feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 15/84] fix: a uri relativized against a base resolves back to
 itself

---
 ecore/uri.go | 69 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/ecore/uri.go b/ecore/uri.go
index 50433f0..4192d10 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -326,34 +326,36 @@ func (uri *URI) Normalize() *URI {
 }
 
 func (uri *URI) Resolve(ref *URI) *URI {
-	// check if opaque first
-	if ref.IsOpaque() || uri.IsOpaque() {
+	// ref is absolute
+	if len(ref.scheme) != 0 {
 		return ref
 	}
 
-	// Reference to current document (lone fragment)
-	refAuthority := ref.Authority()
-	if len(ref.scheme) == 0 && len(refAuthority) == 0 && len(ref.path) == 0 && len(ref.fragment) != 0 && len(ref.query) == 0 {
-		if len(uri.fragment) == 0 && ref.fragment == uri.fragment {
-			return uri
+	// ref has its own authority
+	if len(ref.Authority()) != 0 {
+		return NewURIFromComponents(uri.scheme, ref.username, ref.password, ref.host, ref.port, ref.path, ref.query, ref.fragment)
+	}
+
+	// Reference to current document (no path)
+	if len(ref.path) == 0 {
+		query := ref.query
+		if len(query) == 0 {
+			query = uri.query
 		}
-		return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, uri.path, uri.query, ref.fragment)
+		return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, uri.path, query, ref.fragment)
 	}
 
-	// ref is absolute
-	if len(ref.scheme) != 0 {
+	// check if opaque
+	if uri.IsOpaque() {
 		return ref
 	}
 
 	// no authority
-	if len(refAuthority) == 0 {
-		path := ref.path
-		if len(ref.path) == 0 || ref.path[0] != '/' {
-			path = resolvePath(uri.path, ref.path, uri.IsAbsolute())
-		}
-		return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, path, ref.query, ref.fragment)
+	path := ref.path
+	if ref.path[0] != '/' {
+		path = resolvePath(uri.path, ref.path, uri.IsAbsolute())
 	}
-	return NewURIFromComponents(uri.scheme, ref.username, ref.password, ref.host, ref.port, ref.path, ref.query, ref.fragment)
+	return NewURIFromComponents(uri.scheme, uri.username, uri.password, uri.host, uri.port, path, ref.query, ref.fragment)
 }
 
 func (uri *URI) Relativize(ref *URI) *URI {
@@ -368,17 +370,34 @@ func (uri *URI) Relativize(ref *URI) *URI {
 
 	bp := normalize(uri.path)
 	cp := normalize(ref.path)
-	if bp != cp {
-		if !strings.HasSuffix(bp, "/") {
-			i := strings.LastIndexByte(bp, '/')
-			bp = bp[0 : i+1]
-		}
-
-		if !strings.HasPrefix(cp, bp) {
+	var path string
+	if bp != cp || (len(uri.query) != 0 && len(ref.query) == 0) {
+		dir := bp[:strings.LastIndexByte(bp, '/')+1]
+		if strings.HasPrefix(cp, dir) {
+			// ref is in the directory of uri
+			path = cp[len(dir):]
+		} else if ref.IsAbsolute() || strings.HasPrefix(dir, "/") || strings.HasPrefix(cp, "/") {
 			return ref
+		} else {
+			// both paths are relative : go up to the common directory
+			common := 0
+			for i := 0; i < len(dir) && i < len(cp) && dir[i] == cp[i]; i++ {
+				if dir[i] == '/' {
+					common = i + 1
+				}
+			}
+			if strings.HasPrefix(dir[common:], "../") {
+				return ref
+			}
+			path = strings.Repeat("../", strings.Count(dir[common:], "/")) + cp[common:]
+		}
+		// an empty path is a reference to the current document and
+		// a colon in the first segment ends a scheme
+		if i := strings.IndexAny(path, "/:"); len(path) == 0 || (i >= 0 && path[i] == ':') {
+			path = "./" + path
 		}
 	}
-	return NewURIFromComponents("", "", "", "", "", cp[len(bp):], ref.query, ref.fragment)
+	return NewURIFromComponents("", "", "", "", "", path, ref.query, ref.fragment)
 }
 
 func (uri *URI) TrimFragment() *URI {
-- 
2.43.0


From d423361889c98f1a49bb2b56f6c3f43f0831b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 16/84] fix: the override of an operation is computed without
 deadlock

---
 ecore/eclass_ext.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 0863fcf..22dc588 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -203,20 +203,26 @@ func (eClass *EClassExt) GetOverride(operation EOperation) EOperation {
 func (eClass *EClassExt) initOperationToOverrideMap() {
 	eClass.initEAllOperations()
 	eClass.mutex.Lock()
-	if eClass.operationToOverrideMap == nil {
-		eClass.operationToOverrideMap = make(map[EOperation]EOperation)
-		size := eClass.eAllOperations.Size()
+	isInitialized := eClass.operationToOverrideMap != nil
+	eAllOperations := eClass.eAllOperations
+	eClass.mutex.Unlock()
+	if !isInitialized {
+		// computed without lock because overrides are computed with the super types of this class
+		operationToOverrideMap := make(map[EOperation]EOperation)
+		size := eAllOperations.Size()
 		for i := 0; i < size; i++ {
 			for j := size - 1; j > i; j-- {
-				oi := eClass.eAllOperations.Get(i).(EOperation)
-				oj := eClass.eAllOperations.Get(j).(EOperation)
+				oi := eAllOperations.Get(i).(EOperation)
+				oj := eAllOperations.Get(j).(EOperation)
 				if oj.IsOverrideOf(oi) {
-					eClass.operationToOverrideMap[oi] = oj
+					operationToOverrideMap[oi] = oj
 				}
 			}
 		}
+		eClass.mutex.Lock()
+		eClass.operationToOverrideMap = operationToOverrideMap
+		eClass.mutex.Unlock()
 	}
-	eClass.mutex.Unlock()
 }
 
 func (eClass *EClassExt) initEAttributes() {
-- 
2.43.0


From b78ab6040f8d63595c31dce8db485cda58589672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 17/84] fix: all cross references of a class follow changes of
 its features and super types

---
 ecore/eclass_ext.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 22dc588..8544b98 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -448,17 +448,21 @@ func (eClass *EClassExt) setModified(featureID int) {
 		eClass.eAllStructuralFeatures = nil
 		eClass.eAllReferences = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	case ECLASS__EATTRIBUTES:
 		eClass.eAllAttributes = nil
 		eClass.eAllStructuralFeatures = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	case ECLASS__EREFERENCES:
 		eClass.eAllReferences = nil
 		eClass.eAllStructuralFeatures = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	case ECLASS__EOPERATIONS:
 		eClass.eAllOperations = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	case ECLASS__ESUPER_TYPES:
 		eClass.eAllSuperTypes = nil
 		eClass.eAllAttributes = nil
@@ -466,6 +470,7 @@ func (eClass *EClassExt) setModified(featureID int) {
 		eClass.eAllStructuralFeatures = nil
 		eClass.eAllReferences = nil
 		eClass.eAllContainments = nil
+		eClass.eAllCrossReferences = nil
 	}
 	for _, s := range eClass.subClasses {
 		s.setModified(featureID)
-- 
2.43.0


From fb74550c2c79b216faf5d17866a008f785385f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 18/84] fix: a class follows changes of the name and kind of
 its features

---
 ecore/ereference_ext.go         | 18 ++++++++++++++++++
 ecore/estructuralfeature_ext.go | 19 +++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/ecore/ereference_ext.go b/ecore/ereference_ext.go
index a989e6a..be27208 100644
--- a/ecore/ereference_ext.go
+++ b/ecore/ereference_ext.go
@@ -27,6 +27,24 @@ func (eReference *EReferenceExt) IsContainer() bool {
 	return opposite != nil && opposite.IsContainment()
 }
 
+// SetContainment set the value of isContainment
+func (eReference *EReferenceExt) SetContainment(newIsContainment bool) {
+	eReference.EReferenceImpl.SetContainment(newIsContainment)
+	eReference.setContainingClassModified()
+	// the opposite is a container reference or not
+	if opposite := eReference.GetEOpposite(); opposite != nil {
+		if eClass, _ := opposite.GetEContainingClass().(EClassInternal); eClass != nil {
+			eClass.setModified(ECLASS__ESTRUCTURAL_FEATURES)
+		}
+	}
+}
+
+// SetEOpposite set the value of eOpposite
+func (eReference *EReferenceExt) SetEOpposite(newEOpposite EReference) {
+	eReference.EReferenceImpl.SetEOpposite(newEOpposite)
+	eReference.setContainingClassModified()
+}
+
 func (eReference *EReferenceExt) GetEReferenceType() EClass {
 	if eReference.eReferenceType == nil || eReference.eReferenceType.EIsProxy() {
 		eType := eReference.GetEType()
diff --git a/ecore/estructuralfeature_ext.go b/ecore/estructuralfeature_ext.go
index 02ea3ed..1201d13 100644
--- a/ecore/estructuralfeature_ext.go
+++ b/ecore/estructuralfeature_ext.go
@@ -23,6 +23,25 @@ func newEStructuralFeatureExt() *EStructuralFeatureExt {
 	return eStructuralFeature
 }
 
+// SetName set the value of name
+func (eStructuralFeature *EStructuralFeatureExt) SetName(newName string) {
+	eStructuralFeature.EStructuralFeatureImpl.SetName(newName)
+	eStructuralFeature.setContainingClassModified()
+}
+
+// SetDerived set the value of isDerived
+func (eStructuralFeature *EStructuralFeatureExt) SetDerived(newIsDerived bool) {
+	eStructuralFeature.EStructuralFeatureImpl.SetDerived(newIsDerived)
+	eStructuralFeature.setContainingClassModified()
+}
+
+// setContainingClassModified invalidates what the class of this feature has computed from its features
+func (eStructuralFeature *EStructuralFeatureExt) setContainingClassModified() {
+	if eClass, _ := eStructuralFeature.GetEContainingClass().(EClassInternal); eClass != nil {
+		eClass.setModified(ECLASS__ESTRUCTURAL_FEATURES)
+	}
+}
+
 // GetDefaultValue get the value of defaultValue
 func (eStructuralFeature *EStructuralFeatureExt) GetDefaultValue() any {
 	eType := eStructuralFeature.GetEType()
-- 
2.43.0


From c9b9e94b6fdeb270922e12730e6f30ab26ff4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 19/84] fix: a renamed classifier is found in its package by
 its new name

---
 ecore/eclassifier_ext.go |  8 ++++++++
 ecore/epackage_ext.go    | 10 +++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/ecore/eclassifier_ext.go b/ecore/eclassifier_ext.go
index f94ebe3..39efb92 100644
--- a/ecore/eclassifier_ext.go
+++ b/ecore/eclassifier_ext.go
@@ -21,6 +21,14 @@ func newEClassifierExt() *EClassifierExt {
 	return eClassifier
 }
 
+// SetName set the value of name
+func (eClassifier *EClassifierExt) SetName(newName string) {
+	eClassifier.EClassifierImpl.SetName(newName)
+	if ePackage, _ := eClassifier.EContainer().(interface{ resetClassifierCache() }); ePackage != nil {
+		ePackage.resetClassifierCache()
+	}
+}
+
 func (eClassifier *EClassifierExt) initClassifierID() int {
 	if ePackage := eClassifier.GetEPackage(); ePackage != nil {
 		return ePackage.GetEClassifiers().IndexOf(eClassifier.asEClassifier())
diff --git a/ecore/epackage_ext.go b/ecore/epackage_ext.go
index e224186..e9a822a 100644
--- a/ecore/epackage_ext.go
+++ b/ecore/epackage_ext.go
@@ -21,9 +21,7 @@ func (a *ePackageExtAdapter) NotifyChanged(notification ENotification) {
 	if eventType != REMOVING_ADAPTER {
 		featureID := notification.GetFeatureID()
 		if featureID == EPACKAGE__ECLASSIFIERS {
-			a.pack.classifierMutex.Lock()
-			a.pack.classifierCache = nil
-			a.pack.classifierMutex.Unlock()
+			a.pack.resetClassifierCache()
 		}
 	}
 }
@@ -50,6 +48,12 @@ func (pack *EPackageExt) Initialize() {
 	pack.EAdapters().Add(pack.adapter)
 }
 
+func (pack *EPackageExt) resetClassifierCache() {
+	pack.classifierMutex.Lock()
+	pack.classifierCache = nil
+	pack.classifierMutex.Unlock()
+}
+
 func (pack *EPackageExt) GetEClassifier(classifier string) EClassifier {
 	// retrieve map
 	pack.classifierMutex.Lock()
-- 
2.43.0


From d48d8cdd165b587c90b52c87866a112b6e23ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 20/84] fix: changing the containment of a reference does not
 resolve its opposite

---
 ecore/ereference_ext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/ereference_ext.go b/ecore/ereference_ext.go
index be27208..0264f64 100644
--- a/ecore/ereference_ext.go
+++ b/ecore/ereference_ext.go
@@ -32,7 +32,7 @@ func (eReference *EReferenceExt) SetContainment(newIsContainment bool) {
 	eReference.EReferenceImpl.SetContainment(newIsContainment)
 	eReference.setContainingClassModified()
 	// the opposite is a container reference or not
-	if opposite := eReference.GetEOpposite(); opposite != nil {
+	if opposite := eReference.basicGetEOpposite(); opposite != nil {
 		if eClass, _ := opposite.GetEContainingClass().(EClassInternal); eClass != nil {
 			eClass.setModified(ECLASS__ESTRUCTURAL_FEATURES)
 		}
-- 
2.43.0


From 3c97d0d9926c5388c85cfa9f932e5a087a5d27cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 21/84] fix: a class inherits features and operations of a
 common super type once

---
 ecore/eclass_ext.go | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index 8544b98..c5b9c95 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -268,21 +268,33 @@ func (eClass *EClassExt) initFeaturesSubSet() {
 	eClass.mutex.Unlock()
 }
 
+// appendInherited appends the elements which are not already inherited through another super type
+func appendInherited(inherited []any, isInherited map[any]struct{}, elements EList) []any {
+	for it := elements.Iterator(); it.HasNext(); {
+		element := it.Next()
+		if _, ok := isInherited[element]; !ok {
+			isInherited[element] = struct{}{}
+			inherited = append(inherited, element)
+		}
+	}
+	return inherited
+}
+
 func (eClass *EClassExt) initEAllAttributes() {
 	eClass.mutex.Lock()
 	if eClass.eAllAttributes == nil {
 
 		attributes := []any{}
 		allAttributes := []any{}
+		isInherited := map[any]struct{}{}
 		var eIDAttribute EAttribute = nil
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superAttributes := itClass.Next().(EClass).GetEAllAttributes()
-			for itAttribute := superAttributes.Iterator(); itAttribute.HasNext(); {
-				attribute := itAttribute.Next().(EAttribute)
-				allAttributes = append(allAttributes, attribute)
-				if attribute.IsID() && eIDAttribute == nil {
-					eIDAttribute = attribute
-				}
+			allAttributes = appendInherited(allAttributes, isInherited, superAttributes)
+		}
+		for _, superAttribute := range allAttributes {
+			if attribute := superAttribute.(EAttribute); attribute.IsID() && eIDAttribute == nil {
+				eIDAttribute = attribute
 			}
 		}
 
@@ -308,9 +320,10 @@ func (eClass *EClassExt) initEAllReferences() {
 	if eClass.eAllReferences == nil {
 		allReferences := []any{}
 		references := []any{}
+		isInherited := map[any]struct{}{}
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superReferences := itClass.Next().(EClass).GetEAllReferences()
-			allReferences = append(allReferences, superReferences.ToArray()...)
+			allReferences = appendInherited(allReferences, isInherited, superReferences)
 		}
 
 		for itFeature := eClass.GetEStructuralFeatures().Iterator(); itFeature.HasNext(); {
@@ -365,9 +378,10 @@ func (eClass *EClassExt) initEAllOperations() {
 		eClass.operationToOverrideMap = nil
 
 		allOperations := []any{}
+		isInherited := map[any]struct{}{}
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superOperations := itClass.Next().(EClass).GetEAllOperations()
-			allOperations = append(allOperations, superOperations.ToArray()...)
+			allOperations = appendInherited(allOperations, isInherited, superOperations)
 		}
 
 		operationID := len(allOperations)
@@ -392,9 +406,10 @@ func (eClass *EClassExt) initEAllStructuralFeatures() {
 		eClass.nameToFeatureMap = nil
 
 		allFeatures := []any{}
+		isInherited := map[any]struct{}{}
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superFeatures := itClass.Next().(EClass).GetEAllStructuralFeatures()
-			allFeatures = append(allFeatures, superFeatures.ToArray()...)
+			allFeatures = appendInherited(allFeatures, isInherited, superFeatures)
 		}
 
 		featureID := len(allFeatures)
@@ -413,11 +428,15 @@ func (eClass *EClassExt) initEAllSuperTypes() {
 	eClass.mutex.Lock()
 	if eClass.eAllSuperTypes == nil {
 		allSuperTypes := []any{}
+		isInherited := map[any]struct{}{}
 		for itClass := eClass.GetESuperTypes().Iterator(); itClass.HasNext(); {
 			superClass := itClass.Next().(EClass)
 			superTypes := superClass.GetEAllSuperTypes()
-			allSuperTypes = append(allSuperTypes, superTypes.ToArray()...)
-			allSuperTypes = append(allSuperTypes, superClass)
+			allSuperTypes = appendInherited(allSuperTypes, isInherited, superTypes)
+			if _, ok := isInherited[superClass]; !ok {
+				isInherited[superClass] = struct{}{}
+				allSuperTypes = append(allSuperTypes, superClass)
+			}
 		}
 		eClass.eAllSuperTypes = NewImmutableEList(allSuperTypes)
 	}
-- 
2.43.0


From a3446226209bce2c13192d77522c9f5f9355a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 22/84] fix: a uri fragment made of question marks does not
 panic

---
 ecore/eresource_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index edd07eb..f429b36 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -243,7 +243,7 @@ func (r *EResourceImpl) GetEObject(uriFragment string) EObject {
 			path = path[1:]
 			return r.getObjectByPath(path)
 		} else if uriFragment[size-1] == '?' {
-			if index := strings.LastIndex(uriFragment[:size-2], "?"); index != -1 {
+			if index := strings.LastIndex(uriFragment[:size-1], "?"); index != -1 {
 				id = uriFragment[:index]
 			}
 		}
-- 
2.43.0


From d0ad9e0a7aa6e3375da77eed879868fd145c2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 23/84] fix: a uri fragment whose root is no position finds
 nothing

---
 ecore/eresource_impl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index f429b36..e6818c6 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -341,7 +341,10 @@ func (r *EResourceImpl) getObjectForRootSegment(rootSegment string) EObject {
 		if rootSegment[0] == '?' {
 			return r.getObjectByID(rootSegment[1:])
 		} else {
-			position, _ = strconv.Atoi(rootSegment)
+			var err error
+			if position, err = strconv.Atoi(rootSegment); err != nil {
+				return nil
+			}
 		}
 	}
 	if position >= 0 && position < r.GetContents().Size() {
-- 
2.43.0


From 933772f02900726f655c8a685bb10496e0cce749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 24/84] fix: the path of an object which does not exist finds
 nothing

---
 ecore/ecoreutils.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ecore/ecoreutils.go b/ecore/ecoreutils.go
index 6f6272d..5d9f94a 100644
--- a/ecore/ecoreutils.go
+++ b/ecore/ecoreutils.go
@@ -94,10 +94,16 @@ func getRelativeURIFragmentPath(ancestor EObject, descendant EObject, _ bool) st
 }
 
 func GetEObject(rootEObject EObject, relativeFragmentPath string) EObject {
-	segments := strings.Split(relativeFragmentPath, "/")
-	eObject := rootEObject.(EObjectInternal)
-	for i := 0; i < len(segments) && eObject != nil; i++ {
-		eObject = eObject.EObjectForFragmentSegment(segments[i]).(EObjectInternal)
+	if len(relativeFragmentPath) == 0 {
+		return rootEObject
+	}
+	eObject := rootEObject
+	for _, segment := range strings.Split(relativeFragmentPath, "/") {
+		eInternal, _ := eObject.(EObjectInternal)
+		if eInternal == nil {
+			return nil
+		}
+		eObject = eInternal.EObjectForFragmentSegment(segment)
 	}
 	return eObject
 }
-- 
2.43.0


From 41e39b007768f4b0f3ff6915fa969856522fb714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 25/84] fix: an object is found by its id attribute when the id
 manager does not know the id

---
 ecore/eresource_impl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index e6818c6..c04f21b 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -310,7 +310,9 @@ func (r *EResourceImpl) getIDForObject(eObject EObject) string {
 
 func (r *EResourceImpl) getObjectByID(id string) EObject {
 	if r.objectIDManager != nil {
-		return r.objectIDManager.GetEObject(id)
+		if eObject := r.objectIDManager.GetEObject(id); eObject != nil {
+			return eObject
+		}
 	}
 	for it := r.getAllContentsResolve(r.GetInterfaces(), false); it.HasNext(); {
 		eObject := it.Next().(EObject)
-- 
2.43.0


From 68de2e521b93158384d03d4c03789dc2772981cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 26/84] fix: the fragment of an annotation without count does
 not panic

---
 ecore/emodelelement_ext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/emodelelement_ext.go b/ecore/emodelelement_ext.go
index 1d03f17..f4520b6 100644
--- a/ecore/emodelelement_ext.go
+++ b/ecore/emodelelement_ext.go
@@ -51,7 +51,7 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 				index := strings.LastIndex(uriFragmentSegment, "%")
 				hasCount := false
 				if index != 0 {
-					hasCount = uriFragmentSegment[index+1] == '.'
+					hasCount = index+1 < len(uriFragmentSegment) && uriFragmentSegment[index+1] == '.'
 					if index == len(uriFragmentSegment)-1 || hasCount {
 
 						// DecodeResource all encoded characters.
-- 
2.43.0


From 89475b7c569355cf26a10bdb103d1f1eab17b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 27/84] fix: a model element is found by its fragment whatever
 its name

---
 ecore/emodelelement_ext.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecore/emodelelement_ext.go b/ecore/emodelelement_ext.go
index f4520b6..1eea7f5 100644
--- a/ecore/emodelelement_ext.go
+++ b/ecore/emodelelement_ext.go
@@ -21,6 +21,9 @@ type EModelElementExt struct {
 	EModelElementImpl
 }
 
+// fragmentNameEscaper escapes the characters of a name which have a meaning in a fragment segment
+var fragmentNameEscaper = strings.NewReplacer("@", "%40", ".", "%2E")
+
 func newEModelElementExt() *EModelElementExt {
 	eElement := new(EModelElementExt)
 	eElement.SetInterfaces(eElement)
@@ -106,7 +109,7 @@ func (eModelElement *EModelElementExt) EObjectForFragmentSegment(uriFragmentSegm
 			if name == "%" {
 				name = ""
 			} else {
-				name = url.PathEscape(name)
+				name, _ = url.PathUnescape(name)
 			}
 
 			for it := eModelElement.AsEObject().EContents().Iterator(); it.HasNext(); {
@@ -148,7 +151,7 @@ func (eModelElement *EModelElementExt) EURIFragmentSegment(feature EStructuralFe
 		if len(name) == 0 {
 			name = "%"
 		} else {
-			name = url.PathEscape(name)
+			name = fragmentNameEscaper.Replace(url.PathEscape(name))
 		}
 		if count > 0 {
 			return name + "." + fmt.Sprintf("%d", count)
-- 
2.43.0


From 5f686922dcfa9780a22dc1c43ea1fd258ed49879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 28/84] fix: the type of an attribute without type is nil
 instead of a panic

---
 ecore/eattribute_ext.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecore/eattribute_ext.go b/ecore/eattribute_ext.go
index 98dbaea..aebb560 100644
--- a/ecore/eattribute_ext.go
+++ b/ecore/eattribute_ext.go
@@ -22,11 +22,13 @@ func newEAttributeExt() *EAttributeExt {
 }
 
 func (eAttribute *EAttributeExt) GetEAttributeType() EDataType {
-	return eAttribute.GetEType().(EDataType)
+	eAttributeType, _ := eAttribute.GetEType().(EDataType)
+	return eAttributeType
 }
 
 func (eAttribute *EAttributeExt) basicGetEAttributeType() EDataType {
-	return eAttribute.basicGetEType().(EDataType)
+	eAttributeType, _ := eAttribute.basicGetEType().(EDataType)
+	return eAttributeType
 }
 
 func (eAttribute *EAttributeExt) SetID(newIsID bool) {
-- 
2.43.0


From 831036761854527480b5f6234d2df4817ac7f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 29/84] fix: the class of a reference follows changes of its
 type

---
 ecore/ereference_ext.go | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/ecore/ereference_ext.go b/ecore/ereference_ext.go
index 0264f64..75b505d 100644
--- a/ecore/ereference_ext.go
+++ b/ecore/ereference_ext.go
@@ -12,7 +12,6 @@ package ecore
 // EReferenceExt is the extension of the model object 'EReference'
 type EReferenceExt struct {
 	EReferenceImpl
-	eReferenceType EClass
 }
 
 func newEReferenceExt() *EReferenceExt {
@@ -46,23 +45,11 @@ func (eReference *EReferenceExt) SetEOpposite(newEOpposite EReference) {
 }
 
 func (eReference *EReferenceExt) GetEReferenceType() EClass {
-	if eReference.eReferenceType == nil || eReference.eReferenceType.EIsProxy() {
-		eType := eReference.GetEType()
-		eReferenceType, _ := eType.(EClass)
-		if eReferenceType != nil {
-			eReference.eReferenceType = eReferenceType
-		}
-	}
-	return eReference.eReferenceType
+	eReferenceType, _ := eReference.GetEType().(EClass)
+	return eReferenceType
 }
 
 func (eReference *EReferenceExt) basicGetEReferenceType() EClass {
-	if eReference.eReferenceType == nil {
-		eType := eReference.basicGetEType()
-		eReferenceType, _ := eType.(EClass)
-		if eReferenceType != nil {
-			eReference.eReferenceType = eReferenceType
-		}
-	}
-	return eReference.eReferenceType
+	eReferenceType, _ := eReference.basicGetEType().(EClass)
+	return eReferenceType
 }
-- 
2.43.0


From da4f7e06aa974dfa8d13a995e8e418d5a1d47a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 30/84] fix: the default value of a feature follows changes of
 its type

---
 ecore/estructuralfeature_ext.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecore/estructuralfeature_ext.go b/ecore/estructuralfeature_ext.go
index 1201d13..4bdd1d4 100644
--- a/ecore/estructuralfeature_ext.go
+++ b/ecore/estructuralfeature_ext.go
@@ -80,6 +80,11 @@ func (eStructuralFeature *EStructuralFeatureExt) SetDefaultValue(newDefaultValue
 }
 
 // SetDefaultValueLiteral set the value of defaultValueLiteral
+func (eStructuralFeature *EStructuralFeatureExt) SetEType(newEType EClassifier) {
+	eStructuralFeature.defaultValueFactory = nil // reset default value
+	eStructuralFeature.EStructuralFeatureImpl.SetEType(newEType)
+}
+
 func (eStructuralFeature *EStructuralFeatureExt) SetDefaultValueLiteral(newDefaultValueLiteral string) {
 	eStructuralFeature.defaultValueFactory = nil // reset default value
 	eStructuralFeature.EStructuralFeatureImpl.SetDefaultValueLiteral(newDefaultValueLiteral)
-- 
2.43.0


From f48bdc91efbffb4221421924ccd5a7298d61899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:08 +0000
Subject: [PATCH 31/84] fix: the contents and cross references of a model
 element include those of inherited features

---
 ecore/compacteobject_impl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecore/compacteobject_impl.go b/ecore/compacteobject_impl.go
index 153ab97..b41c048 100644
--- a/ecore/compacteobject_impl.go
+++ b/ecore/compacteobject_impl.go
@@ -210,7 +210,7 @@ func (o *CompactEObjectImpl) EContents() EList {
 	contents := o.getField(contents_flag)
 	if contents == nil {
 		eObject := o.AsEObject()
-		contents = newEContentsList(eObject, eObject.EClass().GetEContainmentFeatures(), true)
+		contents = newEContentsList(eObject, eObject.EClass().GetEAllContainments(), true)
 		o.setField(contents_flag, contents)
 	}
 	return contents.(EList)
@@ -221,7 +221,7 @@ func (o *CompactEObjectImpl) ECrossReferences() EList {
 	crossReferences := o.getField(cross_flag)
 	if crossReferences == nil {
 		eObject := o.AsEObject()
-		crossReferences = newEContentsList(eObject, eObject.EClass().GetECrossReferenceFeatures(), true)
+		crossReferences = newEContentsList(eObject, eObject.EClass().GetEAllCrossReferences(), true)
 		o.setField(cross_flag, crossReferences)
 	}
 	return crossReferences.(EList)
-- 
2.43.0


From ee0ddd9f4077c2e5b23e1b47bd6fa7a1aa4b4849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 32/84] fix: a model element removed from its container does
 not panic when asked for it

---
 ecore/eannotation_impl.go        | 3 ++-
 ecore/eclassifier_impl.go        | 3 ++-
 ecore/eenumliteral_impl.go       | 3 ++-
 ecore/efactory_impl.go           | 3 ++-
 ecore/eoperation_impl.go         | 3 ++-
 ecore/epackage_impl.go           | 3 ++-
 ecore/eparameter_impl.go         | 3 ++-
 ecore/estructuralfeature_impl.go | 3 ++-
 8 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ecore/eannotation_impl.go b/ecore/eannotation_impl.go
index b24b41a..19ba630 100644
--- a/ecore/eannotation_impl.go
+++ b/ecore/eannotation_impl.go
@@ -82,7 +82,8 @@ func (e *EAnnotationImpl) GetDetails() EMap {
 // GetEModelElement get the value of eModelElement
 func (e *EAnnotationImpl) GetEModelElement() EModelElement {
 	if e.EContainerFeatureID() == EANNOTATION__EMODEL_ELEMENT {
-		return e.EContainer().(EModelElement)
+		eContainer, _ := e.EContainer().(EModelElement)
+		return eContainer
 	}
 	return nil
 }
diff --git a/ecore/eclassifier_impl.go b/ecore/eclassifier_impl.go
index e0bea23..8dec8d5 100644
--- a/ecore/eclassifier_impl.go
+++ b/ecore/eclassifier_impl.go
@@ -88,7 +88,8 @@ func (e *EClassifierImpl) GetDefaultValue() any {
 // GetEPackage get the value of ePackage
 func (e *EClassifierImpl) GetEPackage() EPackage {
 	if e.EContainerFeatureID() == ECLASSIFIER__EPACKAGE {
-		return e.EContainer().(EPackage)
+		eContainer, _ := e.EContainer().(EPackage)
+		return eContainer
 	}
 	return nil
 }
diff --git a/ecore/eenumliteral_impl.go b/ecore/eenumliteral_impl.go
index f9fe633..97348dc 100644
--- a/ecore/eenumliteral_impl.go
+++ b/ecore/eenumliteral_impl.go
@@ -50,7 +50,8 @@ func (e *EEnumLiteralImpl) EStaticFeatureCount() int {
 // GetEEnum get the value of eEnum
 func (e *EEnumLiteralImpl) GetEEnum() EEnum {
 	if e.EContainerFeatureID() == EENUM_LITERAL__EENUM {
-		return e.EContainer().(EEnum)
+		eContainer, _ := e.EContainer().(EEnum)
+		return eContainer
 	}
 	return nil
 }
diff --git a/ecore/efactory_impl.go b/ecore/efactory_impl.go
index e080106..5cf361f 100644
--- a/ecore/efactory_impl.go
+++ b/ecore/efactory_impl.go
@@ -62,7 +62,8 @@ func (e *EFactoryImpl) CreateFromString(EDataType, string) any {
 // GetEPackage get the value of ePackage
 func (e *EFactoryImpl) GetEPackage() EPackage {
 	if e.EContainerFeatureID() == EFACTORY__EPACKAGE {
-		return e.EContainer().(EPackage)
+		eContainer, _ := e.EContainer().(EPackage)
+		return eContainer
 	}
 	return nil
 }
diff --git a/ecore/eoperation_impl.go b/ecore/eoperation_impl.go
index 2003ee3..aa00e72 100644
--- a/ecore/eoperation_impl.go
+++ b/ecore/eoperation_impl.go
@@ -61,7 +61,8 @@ func (e *EOperationImpl) IsOverrideOf(EOperation) bool {
 // GetEContainingClass get the value of eContainingClass
 func (e *EOperationImpl) GetEContainingClass() EClass {
 	if e.EContainerFeatureID() == EOPERATION__ECONTAINING_CLASS {
-		return e.EContainer().(EClass)
+		eContainer, _ := e.EContainer().(EClass)
+		return eContainer
 	}
 	return nil
 }
diff --git a/ecore/epackage_impl.go b/ecore/epackage_impl.go
index 61e2f0a..ae0ffd4 100644
--- a/ecore/epackage_impl.go
+++ b/ecore/epackage_impl.go
@@ -125,7 +125,8 @@ func (e *EPackageImpl) GetESubPackages() EList {
 // GetESuperPackage get the value of eSuperPackage
 func (e *EPackageImpl) GetESuperPackage() EPackage {
 	if e.EContainerFeatureID() == EPACKAGE__ESUPER_PACKAGE {
-		return e.EContainer().(EPackage)
+		eContainer, _ := e.EContainer().(EPackage)
+		return eContainer
 	}
 	return nil
 }
diff --git a/ecore/eparameter_impl.go b/ecore/eparameter_impl.go
index 6d9dc3e..6033444 100644
--- a/ecore/eparameter_impl.go
+++ b/ecore/eparameter_impl.go
@@ -39,7 +39,8 @@ func (e *EParameterImpl) EStaticFeatureCount() int {
 // GetEOperation get the value of eOperation
 func (e *EParameterImpl) GetEOperation() EOperation {
 	if e.EContainerFeatureID() == EPARAMETER__EOPERATION {
-		return e.EContainer().(EOperation)
+		eContainer, _ := e.EContainer().(EOperation)
+		return eContainer
 	}
 	return nil
 }
diff --git a/ecore/estructuralfeature_impl.go b/ecore/estructuralfeature_impl.go
index 07face8..1e100af 100644
--- a/ecore/estructuralfeature_impl.go
+++ b/ecore/estructuralfeature_impl.go
@@ -91,7 +91,8 @@ func (e *EStructuralFeatureImpl) SetDefaultValueLiteral(newDefaultValueLiteral s
 // GetEContainingClass get the value of eContainingClass
 func (e *EStructuralFeatureImpl) GetEContainingClass() EClass {
 	if e.EContainerFeatureID() == ESTRUCTURAL_FEATURE__ECONTAINING_CLASS {
-		return e.EContainer().(EClass)
+		eContainer, _ := e.EContainer().(EClass)
+		return eContainer
 	}
 	return nil
 }
-- 
2.43.0


From e0411128a6fe0dd50f62792a53cd08d9c0db7ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 33/84] fix: a reflective object finds the features of a class
 with several super types

---
 ecore/reflectiveeobject_impl.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ecore/reflectiveeobject_impl.go b/ecore/reflectiveeobject_impl.go
index fe01d8c..83f41a7 100644
--- a/ecore/reflectiveeobject_impl.go
+++ b/ecore/reflectiveeobject_impl.go
@@ -64,6 +64,14 @@ func (o *ReflectiveEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
 	return value != nil
 }
 
+func (o *ReflectiveEObjectImpl) EFeatureID(feature EStructuralFeature) int {
+	return o.AsEObject().EClass().GetFeatureID(feature)
+}
+
+func (o *ReflectiveEObjectImpl) EOperationID(operation EOperation) int {
+	return o.AsEObject().EClass().GetOperationID(operation)
+}
+
 func (o *ReflectiveEObjectImpl) getProperties() []any {
 	if o.properties == nil {
 		o.properties = make([]any, o.EClass().GetFeatureCount())
-- 
2.43.0


From c97c56f840ce24194edac56ae08d49b49dcfcea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 34/84] fix: a compact object without proxy uri is not a proxy

---
 ecore/compacteobject_impl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecore/compacteobject_impl.go b/ecore/compacteobject_impl.go
index b41c048..b06df12 100644
--- a/ecore/compacteobject_impl.go
+++ b/ecore/compacteobject_impl.go
@@ -202,7 +202,11 @@ func (o *CompactEObjectImpl) EProxyURI() *URI {
 
 // ESetProxyURI ...
 func (o *CompactEObjectImpl) ESetProxyURI(uri *URI) {
-	o.setField(proxy_flag, uri)
+	if uri == nil {
+		o.setField(proxy_flag, nil)
+	} else {
+		o.setField(proxy_flag, uri)
+	}
 }
 
 // EContents ...
-- 
2.43.0


From fbc76b2348f663b05fdb7dbc0e7a2d0df5009e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 35/84] fix: the contents of a class are found through cycles
 and inherited references

---
 ecore/eallcontents.go | 106 +++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 69 deletions(-)

diff --git a/ecore/eallcontents.go b/ecore/eallcontents.go
index f58f81f..4ec355c 100644
--- a/ecore/eallcontents.go
+++ b/ecore/eallcontents.go
@@ -25,16 +25,6 @@ func (ts transitions) addTransition(transition *transition) transitions {
 	return append(ts, transition)
 }
 
-func (ts transitions) removeTransition(transition *transition) transitions {
-	for i, t := range ts {
-		if t == transition || *t == *transition {
-			ts[i] = ts[len(ts)-1]
-			return ts[:len(ts)-1]
-		}
-	}
-	return ts
-}
-
 type EClassTransitionsTable struct {
 	transitionsMap map[EClass]transitions
 	endSet         map[EClass]struct{}
@@ -47,28 +37,10 @@ func newEClassTransitionsTable() *EClassTransitionsTable {
 	}
 }
 
-func (table *EClassTransitionsTable) union(other *EClassTransitionsTable) *EClassTransitionsTable {
-	for _, transitions := range other.transitionsMap {
-		for _, transition := range transitions {
-			table.addTransition(transition)
-		}
-	}
-	for eClass := range other.endSet {
-		table.setIsEnd(eClass)
-	}
-	return table
-}
-
 func (table *EClassTransitionsTable) addTransition(t *transition) {
 	table.transitionsMap[t.source] = table.transitionsMap[t.source].addTransition(t)
 }
 
-func (table *EClassTransitionsTable) removeTransition(t *transition) {
-	if tableTransitions, isTransitions := table.transitionsMap[t.source]; isTransitions {
-		table.transitionsMap[t.source] = tableTransitions.removeTransition(t)
-	}
-}
-
 func (table *EClassTransitionsTable) getTransitions(eClass EClass) []*transition {
 	if tableTransitions, isTransitions := table.transitionsMap[eClass]; isTransitions {
 		return tableTransitions
@@ -76,11 +48,6 @@ func (table *EClassTransitionsTable) getTransitions(eClass EClass) []*transition
 	return nil
 }
 
-func (table *EClassTransitionsTable) contains(source EClass) bool {
-	_, isTransitions := table.transitionsMap[source]
-	return isTransitions
-}
-
 func (table *EClassTransitionsTable) setIsEnd(eClass EClass) {
 	table.endSet[eClass] = struct{}{}
 }
@@ -91,49 +58,50 @@ func (table *EClassTransitionsTable) isEnd(eClass EClass) bool {
 }
 
 func NewEClassTransitionsTable(startClass EClass, endClass EClass) *EClassTransitionsTable {
-	resultTable := newEClassTransitionsTable()
-	if startClass != endClass {
-		computeTransitionTableForState(startClass, endClass, newEClassTransitionsTable(), resultTable)
-	}
-	return resultTable
-}
-
-func computeTransitionTableForState(eClass EClass, endClass EClass, currentTable *EClassTransitionsTable, resultTable *EClassTransitionsTable) {
-	for itFeature := eClass.GetEContainmentFeatures().Iterator(); itFeature.HasNext(); {
-		reference, _ := itFeature.Next().(EReference)
-		if reference != nil {
-			computeTransitionTableForReference(eClass, reference, endClass, currentTable, resultTable)
+	// transitions which can be reached from the start class
+	reachable := []*transition{}
+	visited := map[EClass]struct{}{startClass: {}}
+	for classes := []EClass{startClass}; len(classes) > 0; classes = classes[1:] {
+		source := classes[0]
+		for itFeature := source.GetEAllContainments().Iterator(); itFeature.HasNext(); {
+			reference := itFeature.Next().(EReference)
+			target := reference.GetEReferenceType()
+			if target == nil {
+				continue
+			}
+			reachable = append(reachable, &transition{source: source, target: target, reference: reference})
+			if _, isVisited := visited[target]; !isVisited {
+				visited[target] = struct{}{}
+				classes = append(classes, target)
+			}
 		}
 	}
-}
-
-func computeTransitionTableForReference(sourceClass EClass, reference EReference, endClass EClass, currentTable *EClassTransitionsTable, resultTable *EClassTransitionsTable) {
-	targetClass := reference.GetEReferenceType()
-	transition := &transition{source: sourceClass, target: targetClass, reference: reference}
 
-	if targetClass == endClass {
-		// end
-		// add current to result table
-		resultTable.setIsEnd(targetClass)
-		resultTable.union(currentTable)
-		resultTable.addTransition(transition)
+	// classes from which the end class can be reached
+	leadsToEnd := map[EClass]struct{}{endClass: {}}
+	for changed := true; changed; {
+		changed = false
+		for _, t := range reachable {
+			if _, isLeading := leadsToEnd[t.target]; isLeading {
+				if _, isLeading := leadsToEnd[t.source]; !isLeading {
+					leadsToEnd[t.source] = struct{}{}
+					changed = true
+				}
+			}
+		}
 	}
 
-	if currentTable.contains(targetClass) {
-		// cycle
-		// check if target is in result and add the current
-		// transition table to keep track of this cycle
-		if resultTable.contains(targetClass) {
-			resultTable.union(currentTable)
-			resultTable.addTransition(transition)
+	// keep transitions which lead to the end class
+	resultTable := newEClassTransitionsTable()
+	for _, t := range reachable {
+		if _, isLeading := leadsToEnd[t.target]; isLeading {
+			resultTable.addTransition(t)
+		}
+		if t.target == endClass {
+			resultTable.setIsEnd(endClass)
 		}
-		return
 	}
-
-	currentTable.addTransition(transition)
-	computeTransitionTableForState(targetClass, endClass, currentTable, resultTable)
-	currentTable.removeTransition(transition)
-
+	return resultTable
 }
 
 type data struct {
-- 
2.43.0


From 7c0bdb5e4f15edba872a4b8dfa0d2f126e673d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:59 +0000
Subject: [PATCH 36/84] fix: the contents of a class do not stop at the first
 reference without value

---
 ecore/eallcontents.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/ecore/eallcontents.go b/ecore/eallcontents.go
index 4ec355c..0f63007 100644
--- a/ecore/eallcontents.go
+++ b/ecore/eallcontents.go
@@ -180,23 +180,25 @@ func (it *eAllContentsWithClassIterator) findNext() any {
 					d.transitions = notransitions
 				}
 			}
-			// compute current and remaining transition
-			if len(d.transitions) != 0 {
+			// compute current and remaining transition, skipping those without value
+			d.transition = nil
+			d.iterator = nil
+			for d.iterator == nil && len(d.transitions) != 0 {
 				last := len(d.transitions) - 1
 				d.transition = d.transitions[last]
 				d.transitions = d.transitions[:last]
-			} else {
-				d.transition = nil
-			}
 
-			// compute iterator
-			if d.transition != nil && d.eObject.EIsSet(d.transition.reference) {
-				value := d.eObject.EGet(d.transition.reference)
-				switch v := value.(type) {
-				case EList:
-					d.iterator = v.Iterator()
-				case EObject:
-					d.iterator = newEObjectIterator(v)
+				// compute iterator
+				if d.eObject.EIsSet(d.transition.reference) {
+					value := d.eObject.EGet(d.transition.reference)
+					switch v := value.(type) {
+					case EList:
+						if !v.Empty() {
+							d.iterator = v.Iterator()
+						}
+					case EObject:
+						d.iterator = newEObjectIterator(v)
+					}
 				}
 			}
 		}
-- 
2.43.0


From 9307c0cb616daa9fa97269cca9c1520e4851d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 37/84] fix: the inherited references of an object are copied

---
 ecore/deepcopy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/deepcopy.go b/ecore/deepcopy.go
index 579ee00..708a62f 100644
--- a/ecore/deepcopy.go
+++ b/ecore/deepcopy.go
@@ -90,7 +90,7 @@ func (dC *deepCopy) copyContainment(eReference EReference, eObject EObject, copy
 
 func (dC *deepCopy) copyReferences() {
 	for eObject, copyEObject := range dC.objects {
-		for it := eObject.EClass().GetEReferences().Iterator(); it.HasNext(); {
+		for it := eObject.EClass().GetEAllReferences().Iterator(); it.HasNext(); {
 			eReference := it.Next().(EReference)
 			if eReference.IsChangeable() && !eReference.IsDerived() && !eReference.IsContainment() && !eReference.IsContainer() {
 				dC.copyReference(eReference, eObject, copyEObject)
-- 
2.43.0


From 1dbf657a434b54a8671236dd7b87baf3f09c1e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 38/84] fix: the inherited features of objects are compared

---
 ecore/deepequal.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ecore/deepequal.go b/ecore/deepequal.go
index 5164919..9c6b666 100644
--- a/ecore/deepequal.go
+++ b/ecore/deepequal.go
@@ -84,8 +84,13 @@ func (dE *deepEqual) equals(eObj1 EObject, eObj2 EObject) bool {
 	dE.objects[eObj1] = eObj2
 	dE.objects[eObj2] = eObj1
 
-	for it := eClass.GetEStructuralFeatures().Iterator(); it.HasNext(); {
-		if eFeature := it.Next().(EStructuralFeature); !eFeature.IsDerived() && !dE.equalsFeature(eObj1, eObj2, eFeature) {
+	for it := eClass.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
+		eFeature := it.Next().(EStructuralFeature)
+		if eReference, _ := eFeature.(EReference); eReference != nil && eReference.IsContainer() {
+			// the container of an object is not part of its content
+			continue
+		}
+		if !eFeature.IsDerived() && !dE.equalsFeature(eObj1, eObj2, eFeature) {
 			delete(dE.objects, eObj1)
 			delete(dE.objects, eObj2)
 			return false
-- 
2.43.0


From c5473e0fb08991d77f706a5d4691da539f9af29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 39/84] fix: the ids of features, operations and classifiers
 are not compared nor copied

---
 ecore/ecorepackage_impl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecore/ecorepackage_impl.go b/ecore/ecorepackage_impl.go
index f519d7b..5052627 100644
--- a/ecore/ecorepackage_impl.go
+++ b/ecore/ecorepackage_impl.go
@@ -1235,7 +1235,7 @@ func (p *EcorePackageImpl) initializePackageContents(_ EcoreFactory) {
 	p.InitEAttribute(p.GetEClassifier_InstanceClass(), p.GetEJavaClass(), "instanceClass", "", 0, 1, false, false, true, false, true, false, true, false)
 	p.InitEAttribute(p.GetEClassifier_InstanceTypeName(), p.GetEString(), "instanceTypeName", "", 0, 1, false, true, true, false, true, false, true, false)
 	p.InitEAttribute(p.GetEClassifier_DefaultValue(), p.GetEJavaObject(), "defaultValue", "", 0, 1, true, true, false, false, true, true, true, false)
-	p.InitEAttribute(p.GetEClassifier_ClassifierID(), p.GetEInt(), "classifierID", "-1", 0, 1, true, false, true, false, true, false, true, false)
+	p.InitEAttribute(p.GetEClassifier_ClassifierID(), p.GetEInt(), "classifierID", "-1", 0, 1, true, false, true, false, true, true, true, false)
 	p.InitEReference(p.GetEClassifier_EPackage(), p.GetEPackage(), p.GetEPackage_EClassifiers(), "ePackage", "", 0, 1, true, false, false, false, true, false, true, false, true)
 	{
 		operation := p.GetEClassifier_IsInstance_EJavaObject()
@@ -1359,7 +1359,7 @@ func (p *EcorePackageImpl) initializePackageContents(_ EcoreFactory) {
 	}
 
 	p.InitEClass(p.eOperation, "EOperation", "github.com/masagroup/soft.go/ecore/ecore.EOperation", false, false)
-	p.InitEAttribute(p.GetEOperation_OperationID(), p.GetEInt(), "operationID", "-1", 0, 1, false, false, true, false, true, false, true, false)
+	p.InitEAttribute(p.GetEOperation_OperationID(), p.GetEInt(), "operationID", "-1", 0, 1, false, false, true, false, true, true, true, false)
 	p.InitEReference(p.GetEOperation_EContainingClass(), p.GetEClass(), p.GetEClass_EOperations(), "eContainingClass", "", 0, 1, true, false, false, false, false, false, true, false, true)
 	p.InitEReference(p.GetEOperation_EParameters(), p.GetEParameter(), p.GetEParameter_EOperation(), "eParameters", "", 0, -1, false, false, true, true, false, false, true, false, true)
 	p.InitEReference(p.GetEOperation_EExceptions(), p.GetEClassifierClass(), nil, "eExceptions", "", 0, -1, false, false, true, false, true, true, true, false, true)
@@ -1405,7 +1405,7 @@ func (p *EcorePackageImpl) initializePackageContents(_ EcoreFactory) {
 	p.InitEAttribute(p.GetEStructuralFeature_DefaultValue(), p.GetEJavaObject(), "defaultValue", "", 0, 1, true, true, true, false, true, true, true, false)
 	p.InitEAttribute(p.GetEStructuralFeature_Unsettable(), p.GetEBoolean(), "unsettable", "", 0, 1, false, false, true, false, true, false, true, false)
 	p.InitEAttribute(p.GetEStructuralFeature_Derived(), p.GetEBoolean(), "derived", "", 0, 1, false, false, true, false, true, false, true, false)
-	p.InitEAttribute(p.GetEStructuralFeature_FeatureID(), p.GetEInt(), "featureID", "-1", 0, 1, true, false, true, false, true, false, true, false)
+	p.InitEAttribute(p.GetEStructuralFeature_FeatureID(), p.GetEInt(), "featureID", "-1", 0, 1, true, false, true, false, true, true, true, false)
 	p.InitEReference(p.GetEStructuralFeature_EContainingClass(), p.GetEClass(), p.GetEClass_EStructuralFeatures(), "eContainingClass", "", 0, 1, true, false, false, false, false, false, true, false, true)
 	p.InitEOperation(p.GetEStructuralFeature_GetContainerClass(), p.GetEJavaClass(), "getContainerClass", 0, 1, true, true)
 
-- 
2.43.0


From dbece01afa6d4fe714081bfa4bff5a95e196d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 40/84] fix: merging a removal into a removal of many loses a
 position

---
 ecore/abstractnotification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/abstractnotification.go b/ecore/abstractnotification.go
index e49b2cd..833a172 100644
--- a/ecore/abstractnotification.go
+++ b/ecore/abstractnotification.go
@@ -113,7 +113,7 @@ func (notif *AbstractNotification) Merge(eOther ENotification) bool {
 
 				newPositions = append(newPositions, notificationPosition)
 				index++
-				for index < len(positions) {
+				for index <= len(positions) {
 					newPositions = append(newPositions, positions[index-1])
 					index++
 				}
-- 
2.43.0


From 85f1b4096c8e4b5ad10ea6f60299de6624395697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 41/84] fix: set notifications of different positions are
 merged

---
 ecore/abstractnotification.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecore/abstractnotification.go b/ecore/abstractnotification.go
index 833a172..b4a9c3a 100644
--- a/ecore/abstractnotification.go
+++ b/ecore/abstractnotification.go
@@ -54,7 +54,8 @@ func (notif *AbstractNotification) Merge(eOther ENotification) bool {
 		switch notifEv := eOther.GetEventType(); notifEv {
 		case SET, UNSET:
 			if eNotif.GetNotifier() == eOther.GetNotifier() &&
-				eNotif.GetFeatureID() == eOther.GetFeatureID() {
+				eNotif.GetFeatureID() == eOther.GetFeatureID() &&
+				eNotif.GetPosition() == eOther.GetPosition() {
 				notif.newValue = eOther.GetNewValue()
 				if eOther.GetEventType() == SET {
 					notif.eventType = SET
-- 
2.43.0


From 35b5efd932d8700fde8d7727f3b429ea95cab21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 42/84] fix: a notification is merged across other changes of
 the same feature

---
 ecore/abstractnotification.go | 27 ++++++++++++++++++++++++++-
 ecore/notificationchain.go    |  9 +++++++--
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/ecore/abstractnotification.go b/ecore/abstractnotification.go
index b4a9c3a..fc0fb44 100644
--- a/ecore/abstractnotification.go
+++ b/ecore/abstractnotification.go
@@ -131,7 +131,7 @@ func (notif *AbstractNotification) Add(eOther ENotification) bool {
 	if eOther == nil {
 		return false
 	}
-	if notif.Merge(eOther) {
+	if (notif.next == nil || !hasSameFeature(notif.next, eOther)) && notif.Merge(eOther) {
 		return false
 	}
 	if notif.next == nil {
@@ -148,6 +148,31 @@ func (notif *AbstractNotification) Add(eOther ENotification) bool {
 	}
 }
 
+// sameFeature returns true if two notifications concern the same feature of the same notifier
+func sameFeature(a, b ENotification) bool {
+	return a.GetNotifier() == b.GetNotifier() && a.GetFeatureID() == b.GetFeatureID()
+}
+
+// hasSameFeature returns true if a notification of the chain concerns the same feature as n:
+// n happened after it and cannot be merged in a notification that precedes it
+func hasSameFeature(chain ENotificationChain, n ENotification) bool {
+	switch c := chain.(type) {
+	case *notificationChain:
+		for it := c.notifications.Iterator(); it.HasNext(); {
+			if sameFeature(it.Next().(ENotification), n) {
+				return true
+			}
+		}
+	case interface{ hasSameFeature(ENotification) bool }:
+		return c.hasSameFeature(n)
+	}
+	return false
+}
+
+func (notif *AbstractNotification) hasSameFeature(n ENotification) bool {
+	return sameFeature(notif.interfaces.(ENotification), n) || (notif.next != nil && hasSameFeature(notif.next, n))
+}
+
 func (notif *AbstractNotification) Dispatch() {
 	notification := notif.interfaces.(ENotification)
 	notifier := notification.GetNotifier()
diff --git a/ecore/notificationchain.go b/ecore/notificationchain.go
index 0c86d05..a9fde5a 100644
--- a/ecore/notificationchain.go
+++ b/ecore/notificationchain.go
@@ -24,10 +24,15 @@ func (chain *notificationChain) Add(newNotif ENotification) bool {
 	if newNotif == nil {
 		return false
 	}
-	for it := chain.notifications.Iterator(); it.HasNext(); {
-		if it.Next().(ENotification).Merge(newNotif) {
+	for i := chain.notifications.Size() - 1; i >= 0; i-- {
+		notif := chain.notifications.Get(i).(ENotification)
+		if notif.Merge(newNotif) {
 			return false
 		}
+		// a change of the same feature has to stay before the new one
+		if i > 0 && sameFeature(notif, newNotif) {
+			break
+		}
 	}
 	chain.notifications.Add(newNotif)
 	return true
-- 
2.43.0


From 2240fc058ff7d9f29f15204343c00fe4641321ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 43/84] fix: a map with several entries for a key disagrees
 with itself

---
 ecore/basicemap.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/ecore/basicemap.go b/ecore/basicemap.go
index d7b2697..6d332dc 100644
--- a/ecore/basicemap.go
+++ b/ecore/basicemap.go
@@ -161,7 +161,11 @@ func (m *BasicEMap) initDataMap() {
 		m.mapData = make(map[any]any, m.Size())
 		for itEntry := m.Iterator(); itEntry.HasNext(); {
 			entry := itEntry.Next().(EMapEntry)
-			m.mapData[entry.GetKey()] = entry.GetValue()
+			key := entry.GetKey()
+			// first entry is the one of the key
+			if _, exists := m.mapData[key]; !exists {
+				m.mapData[key] = entry.GetValue()
+			}
 		}
 	}
 }
@@ -169,14 +173,28 @@ func (m *BasicEMap) initDataMap() {
 func (m *BasicEMap) doAdd(e EMapEntry) {
 	m.mapMutex.Lock()
 	if m.mapData != nil {
-		m.mapData[e.GetKey()] = e.GetValue()
+		key := e.GetKey()
+		if _, exists := m.mapData[key]; exists {
+			// several entries with the same key
+			m.mapData = nil
+		} else {
+			m.mapData[key] = e.GetValue()
+		}
 	}
 	m.mapMutex.Unlock()
 }
 
 func (m *BasicEMap) doRemove(e EMapEntry) {
 	m.mapMutex.Lock()
-	delete(m.mapData, e.GetKey())
+	key := e.GetKey()
+	if m.mapData != nil {
+		if len(m.mapData) == m.Size()+1 {
+			delete(m.mapData, key)
+		} else {
+			// several entries with the same key
+			m.mapData = nil
+		}
+	}
 	m.mapMutex.Unlock()
 }
 
-- 
2.43.0


From 459e4f2cf0cbdd43fd9b483253593b4b0f5f17b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 44/84] fix: attribute ids are kept after another object or id
 took their place

---
 ecore/eobjectidmanager_impl.go | 35 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/ecore/eobjectidmanager_impl.go b/ecore/eobjectidmanager_impl.go
index b25f7c9..647f7a3 100644
--- a/ecore/eobjectidmanager_impl.go
+++ b/ecore/eobjectidmanager_impl.go
@@ -33,8 +33,23 @@ func (m *EObjectIDManagerImpl) Clear() {
 func (m *EObjectIDManagerImpl) Register(eObject EObject) {
 	id := GetEObjectID(eObject)
 	if len(id) > 0 {
-		m.idToObject[id] = eObject
-		m.objectToID[eObject] = id
+		m.setObjectID(eObject, id)
+	}
+}
+
+// setObjectID maps eObject to its new id: its previous id is not its id anymore and
+// an id is the one of a single object
+func (m *EObjectIDManagerImpl) setObjectID(eObject EObject, newID string) {
+	if oldID, isPresent := m.objectToID[eObject]; isPresent {
+		delete(m.idToObject, oldID)
+		delete(m.objectToID, eObject)
+	}
+	if len(newID) > 0 {
+		if owner, isOwned := m.idToObject[newID]; isOwned {
+			delete(m.objectToID, owner)
+		}
+		m.objectToID[eObject] = newID
+		m.idToObject[newID] = eObject
 	}
 }
 
@@ -44,21 +59,7 @@ func (m *EObjectIDManagerImpl) SetID(eObject EObject, id any) error {
 	}
 	if newID, isString := id.(string); isString {
 		SetEObjectID(eObject, newID)
-
-		oldID := m.objectToID[eObject]
-		if len(newID) > 0 {
-			m.objectToID[eObject] = newID
-		} else {
-			delete(m.objectToID, eObject)
-		}
-
-		if len(oldID) > 0 {
-			delete(m.idToObject, oldID)
-		}
-
-		if len(newID) > 0 {
-			m.idToObject[newID] = eObject
-		}
+		m.setObjectID(eObject, newID)
 		return nil
 	}
 	return fmt.Errorf("id :'%v' not supported by EObjectIDManager", id)
-- 
2.43.0


From 223ea7868cd3acf544aca888351a5a79d2d7d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 45/84] fix: two objects of an id manager share an id

---
 ecore/uniqueidmanager.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ecore/uniqueidmanager.go b/ecore/uniqueidmanager.go
index a2abdd0..ed999dc 100644
--- a/ecore/uniqueidmanager.go
+++ b/ecore/uniqueidmanager.go
@@ -48,6 +48,10 @@ func (m *UniqueIDManager[ID]) setObjectID(eObject EObject, newID ID) {
 
 	if m.isValidID(newID) {
 		m.setID(newID)
+		// an id is the one of a single object
+		if owner, isOwned := m.idToObject[newID]; isOwned {
+			delete(m.objectToID, owner)
+		}
 		m.objectToID[eObject] = newID
 		m.idToObject[newID] = eObject
 	} else {
@@ -64,9 +68,9 @@ func (m *UniqueIDManager[ID]) Register(eObject EObject) {
 	if _, isID := m.objectToID[eObject]; !isID {
 		ptr := m.getPointer(eObject)
 		newID, isOldID := m.detachedToID[ptr]
-		if isOldID {
-			delete(m.detachedToID, ptr)
-		} else {
+		delete(m.detachedToID, ptr)
+		if _, isOwned := m.idToObject[newID]; !isOldID || isOwned {
+			// no previous id or previous id is now the one of another object
 			newID = m.newID()
 		}
 		m.setObjectID(eObject, newID)
-- 
2.43.0


From 0cf6a21ab0c543a0ae1b41d70669d5a1223e93b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 46/84] fix: a derived content adapter is not recognized among
 the adapters of a container or resource

---
 ecore/econtentadapter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecore/econtentadapter.go b/ecore/econtentadapter.go
index bb55613..00f135e 100644
--- a/ecore/econtentadapter.go
+++ b/ecore/econtentadapter.go
@@ -119,7 +119,7 @@ func (adapter *EContentAdapter) handleContainment(notification ENotification) {
 		// Checking here avoids having to check during addAdapter.
 		//
 		oldNotifier, _ := notification.GetOldValue().(ENotifier)
-		if oldNotifier != nil && oldNotifier.EAdapters().Contains(adapter) {
+		if oldNotifier != nil && oldNotifier.EAdapters().Contains(adapter.interfaces) {
 			adapter.removeAdapter(oldNotifier)
 			adapter.addAdapter(notification.GetNewValue().(ENotifier))
 		}
@@ -178,12 +178,12 @@ func (adapter *EContentAdapter) removeAdapterWithChecks(notifier ENotifier, chec
 		if checkContainer || checkResource {
 			if internalEObject, _ := notifier.(EObjectInternal); internalEObject != nil {
 				if checkResource {
-					if internalResource := internalEObject.EInternalResource(); internalResource != nil && internalResource.EAdapters().Contains(adapter) {
+					if internalResource := internalEObject.EInternalResource(); internalResource != nil && internalResource.EAdapters().Contains(adapter.interfaces) {
 						return
 					}
 				}
 				if checkContainer {
-					if internalContainer := internalEObject.EInternalContainer(); internalContainer != nil && internalContainer.EAdapters().Contains(adapter) {
+					if internalContainer := internalEObject.EInternalContainer(); internalContainer != nil && internalContainer.EAdapters().Contains(adapter.interfaces) {
 						return
 					}
 				}
-- 
2.43.0


From debcc5c49f08e7f729a3c9fea7c92e2d3365ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 47/84] fix: an object replaced in a resource loses the content
 adapter of its container

---
 ecore/econtentadapter.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ecore/econtentadapter.go b/ecore/econtentadapter.go
index 00f135e..41ee72f 100644
--- a/ecore/econtentadapter.go
+++ b/ecore/econtentadapter.go
@@ -96,21 +96,21 @@ func (adapter *EContentAdapter) selfAdapt(notification ENotification) {
 		feature := notification.GetFeature()
 		if reference, _ := feature.(EReference); reference != nil {
 			if reference.IsContainment() {
-				adapter.handleContainment(notification)
+				adapter.handleContainment(notifier, notification)
 			}
 		}
 	case EResource:
 		if notification.GetFeatureID() == RESOURCE__CONTENTS {
-			adapter.handleContainment(notification)
+			adapter.handleContainment(notifier, notification)
 		}
 	case EResourceSet:
 		if notification.GetFeatureID() == RESOURCE_SET__RESOURCES {
-			adapter.handleContainment(notification)
+			adapter.handleContainment(notifier, notification)
 		}
 	}
 }
 
-func (adapter *EContentAdapter) handleContainment(notification ENotification) {
+func (adapter *EContentAdapter) handleContainment(notifier ENotifier, notification ENotification) {
 	switch notification.GetEventType() {
 	case RESOLVE:
 		// We need to be careful that the proxy may be resolved while we are attaching this adapter.
@@ -131,7 +131,8 @@ func (adapter *EContentAdapter) handleContainment(notification ENotification) {
 	case SET:
 		oldNotifier, _ := notification.GetOldValue().(ENotifier)
 		newNotifier, _ := notification.GetNewValue().(ENotifier)
-		adapter.removeAdapterWithChecks(oldNotifier, false, true)
+		_, checkContainer := notifier.(EResource)
+		adapter.removeAdapterWithChecks(oldNotifier, checkContainer, true)
 		adapter.addAdapter(newNotifier)
 	case ADD:
 		newNotifier, _ := notification.GetNewValue().(ENotifier)
-- 
2.43.0


From 27dd2c0c6a5a3e31c8a502705deb51477391021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 48/84] fix: convert the byte array values of dynamic packages
 to text

---
 ecore/efactory_ext.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecore/efactory_ext.go b/ecore/efactory_ext.go
index 6560e81..c472c83 100644
--- a/ecore/efactory_ext.go
+++ b/ecore/efactory_ext.go
@@ -138,6 +138,9 @@ func (eFactory *EFactoryExt) ConvertToString(eDataType EDataType, instanceValue
 		return strconv.FormatBool(v)
 	case "string", "java.lang.String":
 		return instanceValue.(string)
+	case "byte[]", "[]byte":
+		v, _ := instanceValue.([]byte)
+		return string(v)
 	}
 
 	panic("ConvertToString not implemented")
-- 
2.43.0


From 11e6dd7e4604d7e726d22fec61c1bb16e2ca7920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 49/84] fix: convert the dates to UTC before they are written
 with the Z suffix

---
 ecore/ecorefactory_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/ecorefactory_impl.go b/ecore/ecorefactory_impl.go
index 4edba4b..6740f84 100644
--- a/ecore/ecorefactory_impl.go
+++ b/ecore/ecorefactory_impl.go
@@ -544,7 +544,7 @@ func (ecoreFactoryImpl *EcoreFactoryImpl) createEDateFromString(eDataType EDataT
 
 func (ecoreFactoryImpl *EcoreFactoryImpl) convertEDateToString(eDataType EDataType, instanceValue any) string {
 	t, _ := instanceValue.(*time.Time)
-	return t.Format(dateFormat)
+	return t.UTC().Format(dateFormat)
 }
 
 func (ecoreFactoryImpl *EcoreFactoryImpl) createEDoubleFromString(eDataType EDataType, literalValue string) any {
-- 
2.43.0


From 103720f1715e37306f3fa29b3b9b53b728e13d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:45 +0000
Subject: [PATCH 50/84] fix: do not remember the nil default value of a data
 type whose instance type is not known yet

---
 ecore/edatatype_ext.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ecore/edatatype_ext.go b/ecore/edatatype_ext.go
index 59e093e..4d03fd4 100644
--- a/ecore/edatatype_ext.go
+++ b/ecore/edatatype_ext.go
@@ -60,7 +60,6 @@ func (eDataType *EDataTypeExt) GetDefaultValue() any {
 		case "string", "java.lang.String":
 			return ""
 		}
-		eDataType.defaultValueIsSet = true
 	}
 	return eDataType.defaultValue
 }
-- 
2.43.0


From 92b66262be9661e6e3dd4757aa92e1f7f01e3c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 51/84] fix: compute the default value of a feature again when
 its type becomes not serializable

---
 ecore/estructuralfeature_ext.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecore/estructuralfeature_ext.go b/ecore/estructuralfeature_ext.go
index 4bdd1d4..78b3e14 100644
--- a/ecore/estructuralfeature_ext.go
+++ b/ecore/estructuralfeature_ext.go
@@ -57,6 +57,8 @@ func (eStructuralFeature *EStructuralFeatureExt) GetDefaultValue() any {
 			if factory := ePackage.GetEFactoryInstance(); factory != eStructuralFeature.defaultValueFactory {
 				if eDataType.IsSerializable() {
 					eStructuralFeature.defaultValue = factory.CreateFromString(eDataType, defaultValueLiteral)
+				} else {
+					eStructuralFeature.defaultValue = nil
 				}
 				eStructuralFeature.defaultValueFactory = factory
 			}
-- 
2.43.0


From fd3902c26ba60da60bd9a26e2d935be9059ac020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 52/84] fix: replace the authority of a URI when its prefix is
 replaced

---
 ecore/uri.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/uri.go b/ecore/uri.go
index 4192d10..56790d9 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -435,7 +435,7 @@ func (uri *URI) ReplacePrefix(oldPrefix *URI, newPrefix *URI) *URI {
 		return nil
 	}
 	if oldLen := len(oldPrefix.path); len(uri.path) >= oldLen && uri.path[0:oldLen] == oldPrefix.path {
-		return NewURIFromComponents(newPrefix.scheme, uri.username, uri.password, uri.host, uri.port, newPrefix.path+uri.path[oldLen:], uri.query, uri.fragment)
+		return NewURIFromComponents(newPrefix.scheme, newPrefix.username, newPrefix.password, newPrefix.host, newPrefix.port, newPrefix.path+uri.path[oldLen:], uri.query, uri.fragment)
 	}
 	return nil
 
-- 
2.43.0


From d6e13cd5595f3ea6150c51e3f7782484818a0697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 53/84] fix: use the longest matching prefix to normalize a URI

---
 ecore/euriconverter_impl.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ecore/euriconverter_impl.go b/ecore/euriconverter_impl.go
index 454ab92..69dccd6 100644
--- a/ecore/euriconverter_impl.go
+++ b/ecore/euriconverter_impl.go
@@ -48,12 +48,16 @@ func (r *EURIConverterImpl) Normalize(uri *URI) *URI {
 }
 
 func (r *EURIConverterImpl) getURIFromMap(uri *URI) *URI {
+	// several prefixes may match: use the longest, as the order of a map is arbitrary
+	result, length := uri, -1
 	for oldPrefix, newPrefix := range r.uriMap {
-		if r := uri.ReplacePrefix(&oldPrefix, &newPrefix); r != nil {
-			return r
+		if len(oldPrefix.path) > length {
+			if replaced := uri.ReplacePrefix(&oldPrefix, &newPrefix); replaced != nil {
+				result, length = replaced, len(oldPrefix.path)
+			}
 		}
 	}
-	return uri
+	return result
 }
 
 func (r *EURIConverterImpl) GetURIHandler(uri *URI) EURIHandler {
-- 
2.43.0


From 78a96799644ae713ce6b98270082b5f44c86cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 54/84] fix: look for a resource in a resource set which
 contains resources without URI

---
 ecore/eresourceset_impl.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecore/eresourceset_impl.go b/ecore/eresourceset_impl.go
index c4de8bc..456194f 100644
--- a/ecore/eresourceset_impl.go
+++ b/ecore/eresourceset_impl.go
@@ -91,8 +91,11 @@ func (r *EResourceSetImpl) GetResource(uri *URI, loadOnDemand bool) EResource {
 	normalizedURI := r.GetURIConverter().Normalize(uri)
 	for it := r.resources.Iterator(); it.HasNext(); {
 		resource := it.Next().(EResource)
-		resourceURI := r.GetURIConverter().Normalize(resource.GetURI())
-		if resourceURI.Equals(normalizedURI) {
+		resourceURI := resource.GetURI()
+		if resourceURI == nil {
+			continue
+		}
+		if r.GetURIConverter().Normalize(resourceURI).Equals(normalizedURI) {
 			if loadOnDemand && !resource.IsLoaded() {
 				resource.Load()
 			}
-- 
2.43.0


From b6e065b6c1bbaa9c6385c97649d898787ef450ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 55/84] fix: resolve the super types of a class before it is
 locked to compute its features

---
 ecore/eclass_ext.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ecore/eclass_ext.go b/ecore/eclass_ext.go
index c5b9c95..54d2259 100644
--- a/ecore/eclass_ext.go
+++ b/ecore/eclass_ext.go
@@ -280,7 +280,16 @@ func appendInherited(inherited []any, isInherited map[any]struct{}, elements ELi
 	return inherited
 }
 
+// resolveSuperTypes resolves the proxies among the super types. It is called before
+// the mutex is locked because a resolution modifies the class.
+func (eClass *EClassExt) resolveSuperTypes() {
+	for it := eClass.GetESuperTypes().Iterator(); it.HasNext(); {
+		it.Next()
+	}
+}
+
 func (eClass *EClassExt) initEAllAttributes() {
+	eClass.resolveSuperTypes()
 	eClass.mutex.Lock()
 	if eClass.eAllAttributes == nil {
 
@@ -316,6 +325,7 @@ func (eClass *EClassExt) initEAllAttributes() {
 }
 
 func (eClass *EClassExt) initEAllReferences() {
+	eClass.resolveSuperTypes()
 	eClass.mutex.Lock()
 	if eClass.eAllReferences == nil {
 		allReferences := []any{}
@@ -373,6 +383,7 @@ func (eClass *EClassExt) initEAllCrossReferences() {
 }
 
 func (eClass *EClassExt) initEAllOperations() {
+	eClass.resolveSuperTypes()
 	eClass.mutex.Lock()
 	if eClass.eAllOperations == nil {
 		eClass.operationToOverrideMap = nil
@@ -399,6 +410,7 @@ func (eClass *EClassExt) initEAllOperations() {
 }
 
 func (eClass *EClassExt) initEAllStructuralFeatures() {
+	eClass.resolveSuperTypes()
 	eClass.mutex.Lock()
 	if eClass.eAllStructuralFeatures == nil {
 		eClass.eCrossReferenceFeatures = nil
@@ -425,6 +437,7 @@ func (eClass *EClassExt) initEAllStructuralFeatures() {
 }
 
 func (eClass *EClassExt) initEAllSuperTypes() {
+	eClass.resolveSuperTypes()
 	eClass.mutex.Lock()
 	if eClass.eAllSuperTypes == nil {
 		allSuperTypes := []any{}
-- 
2.43.0


From 4e10810ce96e9e2c3ceb3e0750f5338a4b8497dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:09 +0000
Subject: [PATCH 56/84] fix: no object is found for an empty identifier

---
 ecore/eresource_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/eresource_impl.go b/ecore/eresource_impl.go
index c04f21b..1c44e13 100644
--- a/ecore/eresource_impl.go
+++ b/ecore/eresource_impl.go
@@ -317,7 +317,7 @@ func (r *EResourceImpl) getObjectByID(id string) EObject {
 	for it := r.getAllContentsResolve(r.GetInterfaces(), false); it.HasNext(); {
 		eObject := it.Next().(EObject)
 		objectID := GetEObjectID(eObject)
-		if id == objectID {
+		if len(objectID) > 0 && id == objectID {
 			return eObject
 		}
 	}
-- 
2.43.0


From b40629131353b9190d6622c4293a3ce23e79f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 57/84] fix: do not notify the resolution of a container which
 has no container feature

---
 ecore/abstracteobject.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 1eb7f77..4b4d8db 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -111,7 +111,7 @@ func (o *AbstractEObject) EContainer() EObject {
 				notifications.Dispatch()
 			}
 
-			if o.ENotificationRequired() && containerFeatureID >= EOPPOSITE_FEATURE_BASE {
+			if o.ENotificationRequired() && containerFeatureID > EOPPOSITE_FEATURE_BASE {
 				o.ENotify(NewNotificationByFeatureID(o.AsEObject(), RESOLVE, containerFeatureID, eContainer, resolved, -1))
 			}
 		}
-- 
2.43.0


From 7d058bcc2c6ca41ce01cc63982e298d27e4cb192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 58/84] fix: declare the prefixes of a namespace without losing
 or reading past those of the context

---
 ecore/xmlnamespaces.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/xmlnamespaces.go b/ecore/xmlnamespaces.go
index 3ffae10..c018405 100644
--- a/ecore/xmlnamespaces.go
+++ b/ecore/xmlnamespaces.go
@@ -53,7 +53,7 @@ func (n *xmlNamespaces) declarePrefix(prefix string, uri string) bool {
 	if n.namespacesSize > len(n.namespaces) {
 		n.namespaces = append(n.namespaces, pair{prefix, uri})
 	} else {
-		n.namespaces[n.namespacesSize] = pair{prefix, uri}
+		n.namespaces[n.namespacesSize-1] = pair{prefix, uri}
 	}
 	return false
 }
-- 
2.43.0


From aade4e8d78d745d2a3ede33930f9e91ee88494f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 59/84] fix: give a prefix of its own to each namespace,
 whatever the number of those that want the same

---
 ecore/xmldecoder.go | 6 ++++--
 ecore/xmlencoder.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index e8980dc..4c31ce7 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -283,8 +283,10 @@ func (l *XMLDecoder) startPrefixMapping(prefix string, uri string) {
 	l.namespaces.declarePrefix(prefix, uri)
 	if _, exists := l.prefixesToURI[prefix]; exists {
 		index := 1
-		for _, exists = l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)]; exists; {
-			index++
+		for exists {
+			if _, exists = l.prefixesToURI[prefix+"_"+fmt.Sprintf("%d", index)]; exists {
+				index++
+			}
 		}
 		prefix += "_" + fmt.Sprintf("%d", index)
 	}
diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 2a1416a..0325554 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -719,8 +719,10 @@ func (s *XMLEncoder) getPrefix(ePackage EPackage, mustHavePrefix bool) string {
 
 			if uri, exists := s.prefixesToURI[nsPrefix]; exists && uri != nsURI {
 				index := 1
-				for _, exists = s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)]; exists; {
-					index++
+				for exists {
+					if _, exists = s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)]; exists {
+						index++
+					}
 				}
 				nsPrefix += "_" + fmt.Sprintf("%d", index)
 			}
-- 
2.43.0


From bab30ee793810ab33e27e8f4518d5feb68a786ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 60/84] fix: escape the contents, ids, references and
 namespaces of a XML document

---
 ecore/xmlencoder.go |  4 +---
 ecore/xmlstring.go  | 12 ++++++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 0325554..f26b014 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -14,8 +14,6 @@ import (
 	"io"
 	"sort"
 	"strings"
-
-	"golang.org/x/net/html"
 )
 
 type xmlSaveFeatureKind int
@@ -365,7 +363,7 @@ func (s *XMLEncoder) saveDataTypeSingle(eObject EObject, eFeature EStructuralFea
 	val := eObject.EGetResolve(eFeature, false)
 	str, ok := s.getDataType(val, eFeature, true)
 	if ok {
-		s.str.addAttribute(s.getFeatureQName(eFeature), html.EscapeString(str))
+		s.str.addAttribute(s.getFeatureQName(eFeature), str)
 	}
 }
 
diff --git a/ecore/xmlstring.go b/ecore/xmlstring.go
index bfeadfc..f7c72ad 100644
--- a/ecore/xmlstring.go
+++ b/ecore/xmlstring.go
@@ -3,6 +3,8 @@ package ecore
 import (
 	"io"
 	"strings"
+
+	"golang.org/x/net/html"
 )
 
 type xmlStringSegment struct {
@@ -22,6 +24,12 @@ type xmlString struct {
 	lastElementIsStart bool
 }
 
+// xmlEscape escapes the characters which can't be written as such in the text of an element or in an attribute.
+func xmlEscape(content string) string {
+	// a carriage return which is not escaped is read as a new line
+	return strings.ReplaceAll(html.EscapeString(content), "\r", "&#13;")
+}
+
 const MaxInt = int(^uint(0) >> 1)
 
 func newXmlString() *xmlString {
@@ -132,7 +140,7 @@ func (s *xmlString) startAttribute(name string) {
 }
 
 func (s *xmlString) addAttributeContent(content string) {
-	s.add(content)
+	s.add(xmlEscape(content))
 }
 
 func (s *xmlString) endAttribute() {
@@ -169,7 +177,7 @@ func (s *xmlString) addContent(name string, content string) {
 	s.add("<")
 	s.add(name)
 	s.add(">")
-	s.add(content)
+	s.add(xmlEscape(content))
 	s.add("</")
 	s.depth--
 	s.add(name)
-- 
2.43.0


From c2eebe435ac74170e7c523046e46b59b134c2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:21 +0000
Subject: [PATCH 61/84] fix: an element which can't be loaded does not change
 what the others are loaded in

---
 ecore/xmldecoder.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index 4c31ce7..2ff1c3b 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -320,10 +320,17 @@ func (l *XMLDecoder) processObject(eObject EObject) {
 		l.objects = append(l.objects, eObject)
 		l.types = append(l.types, load_object_type)
 	} else {
-		l.types = append(l.types, load_error_type)
+		l.processError()
 	}
 }
 
+// processError pushes the state of an element which can't be loaded: each element pushes an
+// object and a type which are removed at its end.
+func (l *XMLDecoder) processError() {
+	l.objects = append(l.objects, nil)
+	l.types = append(l.types, load_error_type)
+}
+
 func (l *XMLDecoder) createTopObject(space string, local string) EObject {
 	eFactory := l.getFactoryForSpace(space)
 	if eFactory != nil {
@@ -342,7 +349,7 @@ func (l *XMLDecoder) createTopObject(space string, local string) EObject {
 
 				// consider new child object as the future new root
 				// remove it from document root
-				if len(l.objects) > 0 {
+				if len(l.objects) > 0 && l.objects[0] != nil {
 					eObject = l.objects[0]
 					// remove new object from its container ( document root )
 					Remove(eObject)
@@ -359,6 +366,7 @@ func (l *XMLDecoder) createTopObject(space string, local string) EObject {
 	} else {
 		prefix, _ := l.namespaces.getPrefix(space)
 		l.handleUnknownPackage(prefix, space)
+		l.processError()
 		return nil
 	}
 }
@@ -383,6 +391,7 @@ func (l *XMLDecoder) createObjectFromFeatureType(eObject EObject, eFeature EStru
 		if eType := eFeature.GetEType(); eType != nil {
 			eFactory := eType.GetEPackage().GetEFactoryInstance()
 			eResult = l.createObjectWithFactory(eFactory, eType, true)
+			l.validateObject(eResult, eType.GetEPackage().GetNsURI(), eType.GetName())
 		}
 	}
 	if eResult != nil {
@@ -403,6 +412,7 @@ func (l *XMLDecoder) createObjectFromTypeName(eObject EObject, qname string, eFe
 	eFactory := l.getFactoryForSpace(space)
 	if eFactory == nil {
 		l.handleUnknownPackage(prefix, space)
+		l.processError()
 		return nil
 	}
 
@@ -437,10 +447,11 @@ func (l *XMLDecoder) handleFeature(space string, local string) {
 				}
 			}
 		} else {
+			l.processError()
 			l.handleUnknownFeature(local)
 		}
 	} else {
-		l.types = append(l.types, load_error_type)
+		l.processError()
 		l.handleUnknownFeature(local)
 	}
 
@@ -608,6 +619,7 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 					l.handleProxy(eProxy, id)
 				}
 				l.objects = l.objects[:len(l.objects)-1]
+				l.types = l.types[:len(l.types)-1]
 				qName = ""
 				position++
 				continue
-- 
2.43.0


From a96674ed31f2a824d75c9440283fdbb4162256a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:45 +0000
Subject: [PATCH 62/84] fix: keep the order of the references of a XML document

---
 ecore/xmldecoder.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index 2ff1c3b..9dab4a2 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -492,17 +492,18 @@ func (l *XMLDecoder) setFeatureValue(eObject EObject,
 			eList.Add(value)
 		} else if position == -2 {
 			eList.Clear()
-		} else if eObject == value {
-			index := eList.IndexOf(value)
+		} else {
+			// the opposite reference may have already added the value and
+			// references before this one may be unresolved
+			index := -1
+			if eFeature.IsUnique() {
+				index = eList.IndexOf(value)
+			}
 			if index == -1 {
-				eList.Insert(position, value)
+				eList.Insert(min(position, eList.Size()), value)
 			} else {
-				eList.Move(position, index)
+				eList.Move(index, min(position, eList.Size()-1))
 			}
-		} else if kind == xlfkManyAdd {
-			eList.Add(value)
-		} else {
-			eList.MoveObject(position, value)
 		}
 	default:
 		eObject.ESet(eFeature, value)
@@ -599,7 +600,7 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 	isFirstID := true
 	position := 0
 	references := []xmlReference{}
-	tokens := strings.Split(ids, " ")
+	tokens := strings.Fields(ids)
 	qName := ""
 	for _, token := range tokens {
 		id := token
-- 
2.43.0


From 15bca5c4ec8715b24a67a674fcc3e8f7052eef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 63/84] fix: replace the proxies of a XML document which are in
 this document

---
 ecore/xmldecoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index 9dab4a2..3609f94 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -712,11 +712,11 @@ func (l *XMLDecoder) handleReferences() {
 						resolvedIndex := holderContents.IndexOf(resolvedObject)
 						if resolvedIndex != -1 {
 							proxyIndex := holderContents.IndexOf(eProxy)
-							holderContents.Move(proxyIndex, resolvedIndex)
+							holderContents.Move(resolvedIndex, proxyIndex)
 							if proxyIndex > resolvedIndex {
-								holderContents.Remove(proxyIndex - 1)
+								holderContents.RemoveAt(proxyIndex - 1)
 							} else {
-								holderContents.Remove(proxyIndex + 1)
+								holderContents.RemoveAt(proxyIndex + 1)
 							}
 							break
 						}
@@ -729,7 +729,7 @@ func (l *XMLDecoder) handleReferences() {
 						replace = !list.Contains(proxyHolder)
 					} else {
 						value := resolvedObject.EGet(eReference)
-						object := value.(EObject)
+						object, _ := value.(EObject)
 						replace = object != proxyHolder
 					}
 
-- 
2.43.0


From 50f135609e3ed968aa2e241fca20ee470b828151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 64/84] fix: write the type of the objects of a feature whose
 type is EObject

---
 ecore/xmlencoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index f26b014..454a321 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -463,7 +463,7 @@ func (s *XMLEncoder) saveEObject(o EObject, f EStructuralFeature) {
 	s.str.startElement(s.getFeatureQName(f))
 	eClass := o.EClass()
 	eType := f.GetEType()
-	if eType != eClass && eType != GetPackage().GetEObject() {
+	if eType != eClass {
 		s.saveTypeAttribute(eClass)
 	}
 	s.saveElementID(o)
-- 
2.43.0


From 635e84cfca3157b0d445ec962b80f261b10e1f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 65/84] fix: read back the nil values of a XML document

---
 ecore/xmldecoder.go | 9 ++++++++-
 ecore/xmlencoder.go | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index 3609f94..24488bf 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -21,6 +21,7 @@ import (
 const (
 	href                            = "href"
 	typeAttrib                      = "type"
+	nilAttrib                       = "nil"
 	schemaLocationAttrib            = "schemaLocation"
 	noNamespaceSchemaLocationAttrib = "noNamespaceSchemaLocation"
 	xsiURI                          = "http://www.w3.org/2001/XMLSchema-instance"
@@ -434,7 +435,13 @@ func (l *XMLDecoder) handleFeature(space string, local string) {
 	if eObject != nil {
 		eFeature := l.getFeature(eObject, space, local)
 		if eFeature != nil {
-			if featureKind := l.getLoadFeatureKind(eFeature); featureKind == xlfkSingle || featureKind == xlfkMany {
+			featureKind := l.getLoadFeatureKind(eFeature)
+			isObjects := featureKind == xlfkManyAdd || featureKind == xlfkManyMove
+			if !isObjects && l.getAttributeValue(xsiURI, nilAttrib) == "true" {
+				l.setFeatureValue(eObject, eFeature, nil, -1)
+				l.types = append(l.types, load_object_type)
+				l.objects = append(l.objects, nil)
+			} else if featureKind == xlfkSingle || featureKind == xlfkMany {
 				l.textBuilder = &strings.Builder{}
 				l.types = append(l.types, eFeature)
 				l.objects = append(l.objects, nil)
diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 454a321..3fcf3c8 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -432,6 +432,8 @@ func (s *XMLEncoder) saveEObjectMany(eObject EObject, eFeature EStructuralFeatur
 
 func (s *XMLEncoder) saveNil(_ EObject, eFeature EStructuralFeature) {
 	s.str.addNil(s.getFeatureQName(eFeature))
+	s.uriToPrefixes[xsiURI] = []string{xsiNS}
+	s.prefixesToURI[xsiNS] = xsiURI
 }
 
 func (s *XMLEncoder) saveContainedSingle(eObject EObject, eFeature EStructuralFeature) {
-- 
2.43.0


From 2f6f8defeecbe7ccb58a5779262018a177971c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 66/84] fix: do not write a package with the prefixes of
 XMLSchema-instance and XMI

---
 ecore/xmlencoder.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 3fcf3c8..00eb9f5 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -717,9 +717,9 @@ func (s *XMLEncoder) getPrefix(ePackage EPackage, mustHavePrefix bool) string {
 				nsPrefix = "_"
 			}
 
-			if uri, exists := s.prefixesToURI[nsPrefix]; exists && uri != nsURI {
+			if uri, exists := s.prefixesToURI[nsPrefix]; (exists && uri != nsURI) || isReservedPrefix(nsPrefix, nsURI) {
 				index := 1
-				for exists {
+				for exists = true; exists; {
 					if _, exists = s.prefixesToURI[nsPrefix+"_"+fmt.Sprintf("%d", index)]; exists {
 						index++
 					}
@@ -734,6 +734,11 @@ func (s *XMLEncoder) getPrefix(ePackage EPackage, mustHavePrefix bool) string {
 	return nsPrefix
 }
 
+// isReservedPrefix returns true if prefix is the one of another namespace in all documents
+func isReservedPrefix(prefix string, nsURI string) bool {
+	return (prefix == xsiNS && nsURI != xsiURI) || (prefix == xmiNS && nsURI != xmiURI)
+}
+
 func (s *XMLEncoder) setPrefixToNamespace(prefixToNamespaceMap EMap) {
 	for it := prefixToNamespaceMap.Iterator(); it.HasNext(); {
 		entry := it.Next().(EMapEntry)
-- 
2.43.0


From ae5d693acf4b2e65addf73f26c358139e73616b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 67/84] fix: load bidirectional references to objects which are
 not loaded yet

---
 ecore/xmldecoder.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index 24488bf..ce18d82 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -603,7 +603,6 @@ func (l *XMLDecoder) setAttributeValue(eObject EObject, qname string, value stri
 
 func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids string) {
 	mustAdd := l.isResolveDeferred
-	mustAddOrNotOppositeIsMany := false
 	isFirstID := true
 	position := 0
 	references := []xmlReference{}
@@ -641,16 +640,15 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 			if isFirstID {
 				eOpposite := eReference.GetEOpposite()
 				if eOpposite != nil {
-					mustAdd = eOpposite.IsTransient() || eReference.IsMany()
-					mustAddOrNotOppositeIsMany = mustAdd || !eOpposite.IsMany()
+					// otherwise the reference is set by its opposite
+					mustAdd = eOpposite.IsTransient() || eReference.IsMany() || !eOpposite.IsMany()
 				} else {
 					mustAdd = true
-					mustAddOrNotOppositeIsMany = true
 				}
 				isFirstID = false
 			}
 
-			if mustAddOrNotOppositeIsMany {
+			if mustAdd {
 				resolved := l.resource.GetEObject(id)
 				if resolved != nil {
 					l.setFeatureValue(eObject, eReference, resolved, -1)
-- 
2.43.0


From 534cf1bffbe5adab36225fbeb01ca15d03b395da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 68/84] fix: report a reference to an object which is in no
 resource

---
 ecore/xmlencoder.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 00eb9f5..20e3fd3 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -57,6 +57,7 @@ type XMLEncoder struct {
 	w                io.Writer
 	resource         EResource
 	roots            EList
+	object           EObject
 	prefixesToURI    map[string]string
 	uriToPrefixes    map[string][]string
 	packages         map[EPackage]string
@@ -123,6 +124,7 @@ func (s *XMLEncoder) EncodeObject(eObject EObject) (err error) {
 			err = diagnostic
 		}
 	}
+	s.object = eObject
 	s.encodeTopObject(eObject)
 	return
 }
@@ -802,9 +804,13 @@ func (s *XMLEncoder) getResourceHRef(resource EResource, object EObject) *URI {
 func (s *XMLEncoder) getIDRef(eObject EObject) string {
 	if s.resource == nil {
 		return ""
-	} else {
-		return "#" + s.resource.GetURIFragment(eObject)
+	} else if eObject.EResource() == nil && (s.object == nil || !IsAncestor(s.object, eObject)) {
+		if idManager := s.resource.GetObjectIDManager(); idManager == nil || idManager.GetID(eObject) == nil {
+			s.handleDanglingHREF(eObject)
+			return ""
+		}
 	}
+	return "#" + s.resource.GetURIFragment(eObject)
 }
 
 func (s *XMLEncoder) handleDanglingHREF(eObject EObject) {
-- 
2.43.0


From 665bb0946eb6b06ce8e5f5f6f889cf167796cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 69/84] fix: no object is found for a fragment whose segments
 are not those of an object

---
 ecore/abstracteobject.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/ecore/abstracteobject.go b/ecore/abstracteobject.go
index 4b4d8db..3ba7dd1 100644
--- a/ecore/abstracteobject.go
+++ b/ecore/abstracteobject.go
@@ -910,38 +910,34 @@ func (o *AbstractEObject) EBasicRemoveFromContainerFeature(notifications ENotifi
 	return notifications
 }
 
-func (o *AbstractEObject) eStructuralFeature(featureName string) EStructuralFeature {
-	eFeature := o.AsEObject().EClass().GetEStructuralFeatureFromName(featureName)
-	if eFeature == nil {
-		panic("The feature " + featureName + " is not a valid feature")
-	}
-	return eFeature
-}
-
 func (o *AbstractEObject) EObjectForFragmentSegment(uriSegment string) EObject {
 
 	lastIndex := len(uriSegment) - 1
 	if lastIndex == -1 || uriSegment[0] != '@' {
-		panic("Expecting @ at index 0 of '" + uriSegment + "'")
+		return nil
 	}
+	eClass := o.AsEObject().EClass()
 
 	index := -1
 	r, _ := utf8.DecodeLastRuneInString(uriSegment)
 	if unicode.IsDigit(r) {
 		if index = strings.LastIndex(uriSegment, "."); index != -1 {
-			pos, _ := strconv.Atoi(uriSegment[index+1:])
-			eFeatureName := uriSegment[1:index]
-			eFeature := o.eStructuralFeature(eFeatureName)
-			list, _ := o.AsEObject().EGetResolve(eFeature, false).(EList)
-			if list != nil && pos < list.Size() {
-				return list.Get(pos).(EObject)
+			pos, err := strconv.Atoi(uriSegment[index+1:])
+			eFeature := eClass.GetEStructuralFeatureFromName(uriSegment[1:index])
+			if err != nil || eFeature == nil || !eFeature.IsMany() {
+				// the dot is a part of the name of a feature
+				index = -1
+			} else if list, _ := o.AsEObject().EGetResolve(eFeature, false).(EList); list != nil && pos >= 0 && pos < list.Size() {
+				eObject, _ := list.Get(pos).(EObject)
+				return eObject
 			}
 		}
 	}
 	if index == -1 {
-		eFeature := o.eStructuralFeature(uriSegment[1:])
-		eObject, _ := o.AsEObject().EGetResolve(eFeature, false).(EObject)
-		return eObject
+		if eFeature := eClass.GetEStructuralFeatureFromName(uriSegment[1:]); eFeature != nil {
+			eObject, _ := o.AsEObject().EGetResolve(eFeature, false).(EObject)
+			return eObject
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 1f32a219e2f8015be8c0efe03db907898b07558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 70/84] fix: report the objects of a XML document which a
 feature can't hold

---
 ecore/ecoreutils.go | 17 +++++++++++++++++
 ecore/xmldecoder.go | 19 +++++++++++++------
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/ecore/ecoreutils.go b/ecore/ecoreutils.go
index 5d9f94a..2f7f010 100644
--- a/ecore/ecoreutils.go
+++ b/ecore/ecoreutils.go
@@ -202,6 +202,23 @@ func GetAncestor(eObject EObject, eClass EClass) EObject {
 	return eCurrent
 }
 
+// isPermittedValue tells if a feature of an object may hold a value: the value is an instance of the type
+// of the feature, and no object contains itself.
+func isPermittedValue(eObject EObject, eFeature EStructuralFeature, value EObject) bool {
+	eClass, _ := eFeature.GetEType().(EClass)
+	if eClass != nil && eClass != GetPackage().GetEObject() && !eClass.IsSuperTypeOf(value.EClass()) {
+		return false
+	}
+	if eReference, _ := eFeature.(EReference); eReference != nil {
+		if eReference.IsContainment() {
+			return !IsAncestor(value, eObject)
+		} else if eReference.IsContainer() {
+			return !IsAncestor(eObject, value)
+		}
+	}
+	return true
+}
+
 func IsAncestor(eAncestor EObject, eObject EObject) bool {
 	eCurrent := eObject
 	for eCurrent != nil && eCurrent != eAncestor {
diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index ce18d82..5ffaf04 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -395,8 +395,8 @@ func (l *XMLDecoder) createObjectFromFeatureType(eObject EObject, eFeature EStru
 			l.validateObject(eResult, eType.GetEPackage().GetNsURI(), eType.GetName())
 		}
 	}
-	if eResult != nil {
-		l.setFeatureValue(eObject, eFeature, eResult, -1)
+	if eResult != nil && !l.setFeatureValue(eObject, eFeature, eResult, -1) {
+		eResult = nil
 	}
 	l.processObject(eResult)
 	return eResult
@@ -420,8 +420,8 @@ func (l *XMLDecoder) createObjectFromTypeName(eObject EObject, qname string, eFe
 	eType := l.getType(eFactory.GetEPackage(), local)
 	eResult := l.createObjectWithFactory(eFactory, eType, true)
 	l.validateObject(eResult, space, local)
-	if eResult != nil {
-		l.setFeatureValue(eObject, eFeature, eResult, -1)
+	if eResult != nil && !l.setFeatureValue(eObject, eFeature, eResult, -1) {
+		eResult = nil
 	}
 	l.processObject(eResult)
 	return eResult
@@ -467,7 +467,12 @@ func (l *XMLDecoder) handleFeature(space string, local string) {
 func (l *XMLDecoder) setFeatureValue(eObject EObject,
 	eFeature EStructuralFeature,
 	value any,
-	position int) {
+	position int) bool {
+	if object, _ := value.(EObject); object != nil && !isPermittedValue(eObject, eFeature, object) {
+		l.error(NewEDiagnosticImpl("Feature "+eFeature.GetName()+" can't hold an object of class '"+object.EClass().GetName()+"'",
+			l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+		return false
+	}
 	kind := l.getLoadFeatureKind(eFeature)
 	switch kind {
 	case xlfkSingle:
@@ -515,6 +520,7 @@ func (l *XMLDecoder) setFeatureValue(eObject EObject,
 	default:
 		eObject.ESet(eFeature, value)
 	}
+	return true
 }
 
 func (l *XMLDecoder) getLoadFeatureKind(eFeature EStructuralFeature) xmlLoadFeatureKind {
@@ -648,7 +654,8 @@ func (l *XMLDecoder) setValueFromId(eObject EObject, eReference EReference, ids
 				isFirstID = false
 			}
 
-			if mustAdd {
+			// the container of an object is set after its attributes
+			if mustAdd && !eReference.IsContainment() && !eReference.IsContainer() {
 				resolved := l.resource.GetEObject(id)
 				if resolved != nil {
 					l.setFeatureValue(eObject, eReference, resolved, -1)
-- 
2.43.0


From a8a2cd58ea5e6d815936778b84913723d42f0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 71/84] fix: report the literals of a XML document of which no
 value can be made

---
 ecore/ecoreutils.go | 11 +++++++++++
 ecore/xmldecoder.go | 16 ++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/ecore/ecoreutils.go b/ecore/ecoreutils.go
index 2f7f010..108d87c 100644
--- a/ecore/ecoreutils.go
+++ b/ecore/ecoreutils.go
@@ -10,6 +10,7 @@
 package ecore
 
 import (
+	"fmt"
 	"strings"
 )
 
@@ -40,6 +41,16 @@ func ConvertToString(eDataType EDataType, value any) string {
 	return eFactory.ConvertToString(eDataType, value)
 }
 
+// createFromString creates a value from a literal, an error is returned if the factory can't create it.
+func createFromString(eFactory EFactory, eDataType EDataType, literal string) (value any, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+	return eFactory.CreateFromString(eDataType, literal), nil
+}
+
 func CreateFromString(eDataType EDataType, literal string) any {
 	eFactory := eDataType.GetEPackage().GetEFactoryInstance()
 	return eFactory.CreateFromString(eDataType, literal)
diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index 5ffaf04..8e4bd2d 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -481,8 +481,8 @@ func (l *XMLDecoder) setFeatureValue(eObject EObject,
 		eFactory := eDataType.GetEPackage().GetEFactoryInstance()
 		if value == nil {
 			eObject.ESet(eFeature, nil)
-		} else {
-			eObject.ESet(eFeature, eFactory.CreateFromString(eDataType, value.(string)))
+		} else if value, ok := l.createFromString(eFactory, eDataType, value.(string)); ok {
+			eObject.ESet(eFeature, value)
 		}
 
 	case xlfkMany:
@@ -493,8 +493,8 @@ func (l *XMLDecoder) setFeatureValue(eObject EObject,
 		if position == -2 {
 		} else if value == nil {
 			eList.Add(nil)
-		} else {
-			eList.Add(eFactory.CreateFromString(eDataType, value.(string)))
+		} else if value, ok := l.createFromString(eFactory, eDataType, value.(string)); ok {
+			eList.Add(value)
 		}
 	case xlfkManyAdd:
 		fallthrough
@@ -523,6 +523,14 @@ func (l *XMLDecoder) setFeatureValue(eObject EObject,
 	return true
 }
 
+func (l *XMLDecoder) createFromString(eFactory EFactory, eDataType EDataType, literal string) (any, bool) {
+	value, err := createFromString(eFactory, eDataType, literal)
+	if err != nil {
+		l.error(NewEDiagnosticImpl(err.Error(), l.resource.GetURI().String(), int(l.decoder.InputOffset()), 0))
+	}
+	return value, err == nil
+}
+
 func (l *XMLDecoder) getLoadFeatureKind(eFeature EStructuralFeature) xmlLoadFeatureKind {
 	eClassifier := eFeature.GetEType()
 	if eDataType, _ := eClassifier.(EDataType); eDataType != nil {
-- 
2.43.0


From 1cf40f70afc961b7a4074a7335d87ff1ddaafc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 72/84] fix: keep the order of the references of a binary
 resource

---
 ecore/binarydecoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecore/binarydecoder.go b/ecore/binarydecoder.go
index 91b9b96..e701498 100644
--- a/ecore/binarydecoder.go
+++ b/ecore/binarydecoder.go
@@ -324,9 +324,9 @@ func (d *BinaryDecoder) decodeObjects(list EList) error {
 			objects[i-duplicateCount] = o
 		}
 
-		size -= existingSize
-		list.AddAll(NewImmutableEList(objects))
-		for i := 0; i < existingSize; i++ {
+		size -= duplicateCount
+		list.InsertAll(0, NewImmutableEList(objects[:size]))
+		for i := 0; i < duplicateCount; i++ {
 			newPosition := indices[i]
 			oldPosition := size + i
 			if newPosition != oldPosition {
-- 
2.43.0


From d69d6ca67affe7b8e6a0a9cc038f7141f01807af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 73/84] fix: read a binary resource written with another
 version of its package

---
 ecore/binarydecoder.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ecore/binarydecoder.go b/ecore/binarydecoder.go
index e701498..2d8727a 100644
--- a/ecore/binarydecoder.go
+++ b/ecore/binarydecoder.go
@@ -21,13 +21,13 @@ import (
 
 type binaryDecoderPackageData struct {
 	ePackage   EPackage
-	eClassData []*binaryDecoderClassData
+	eClassData map[int]*binaryDecoderClassData
 }
 
 type binaryDecoderClassData struct {
 	eClass      EClass
 	eFactory    EFactory
-	featureData []*binaryDecoderFeatureData
+	featureData map[int]*binaryDecoderFeatureData
 }
 
 type binaryDecoderFeatureData struct {
@@ -255,7 +255,7 @@ func (d *BinaryDecoder) decodeObject() (EObject, error) {
 			for featureID != -1 {
 				eFeatureData := eClassData.featureData[featureID]
 				if eFeatureData == nil {
-					eFeatureData, err = d.newFeatureData(eClassData, featureID)
+					eFeatureData, err = d.newFeatureData(eClassData)
 					if err != nil {
 						return nil, err
 					}
@@ -578,7 +578,7 @@ func (d *BinaryDecoder) resolveURI(uri *URI) *URI {
 func (d *BinaryDecoder) newPackageData(ePackage EPackage) *binaryDecoderPackageData {
 	return &binaryDecoderPackageData{
 		ePackage:   ePackage,
-		eClassData: make([]*binaryDecoderClassData, ePackage.GetEClassifiers().Size()),
+		eClassData: map[int]*binaryDecoderClassData{},
 	}
 }
 
@@ -595,11 +595,11 @@ func (d *BinaryDecoder) newClassData(ePackageData *binaryDecoderPackageData) (*b
 	return &binaryDecoderClassData{
 		eClass:      eClass,
 		eFactory:    ePackage.GetEFactoryInstance(),
-		featureData: make([]*binaryDecoderFeatureData, eClass.GetFeatureCount()),
+		featureData: map[int]*binaryDecoderFeatureData{},
 	}, nil
 }
 
-func (d *BinaryDecoder) newFeatureData(eClassData *binaryDecoderClassData, featureID int) (*binaryDecoderFeatureData, error) {
+func (d *BinaryDecoder) newFeatureData(eClassData *binaryDecoderClassData) (*binaryDecoderFeatureData, error) {
 	eFeatureName, err := d.decodeString()
 	if err != nil {
 		return nil, err
@@ -610,7 +610,7 @@ func (d *BinaryDecoder) newFeatureData(eClassData *binaryDecoderClassData, featu
 	}
 	eFeatureData := &binaryDecoderFeatureData{
 		eFeature:    eFeature,
-		featureID:   featureID,
+		featureID:   eClassData.eClass.GetFeatureID(eFeature),
 		featureKind: getBinaryCodecFeatureKind(eFeature),
 	}
 	if eAttribute, _ := eFeature.(EAttribute); eAttribute != nil {
-- 
2.43.0


From d3527adc4dbea315e090a1419a3210fbc1d3be5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 74/84] fix: report the errors of a corrupted binary resource

---
 ecore/binarydecoder.go | 74 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 60 insertions(+), 14 deletions(-)

diff --git a/ecore/binarydecoder.go b/ecore/binarydecoder.go
index 2d8727a..5ed0181 100644
--- a/ecore/binarydecoder.go
+++ b/ecore/binarydecoder.go
@@ -88,14 +88,20 @@ func (d *BinaryDecoder) DecodeResource() {
 	}
 	// objects
 	var size int
-	if size, err = d.decodeInt(); err != nil {
+	if size, err = d.decodeSize(); err != nil {
 		return
 	}
-	objects := make([]any, size)
+	objects := []any{}
 	for i := 0; i < size; i++ {
-		if objects[i], err = d.decodeObject(); err != nil {
+		var object EObject
+		if object, err = d.decodeObject(); err != nil {
 			return
 		}
+		if object == nil {
+			err = errors.New("unexpected nil object in a binary emf serialization")
+			return
+		}
+		objects = append(objects, object)
 	}
 
 	// add objects to resource
@@ -112,6 +118,23 @@ func (d *BinaryDecoder) DecodeObject() (EObject, error) {
 	return d.decodeObject()
 }
 
+// checkIndex checks an index in a table of a given size: it is that of an element of the table
+// or that of a new element
+func checkIndex(index, size int) error {
+	if index < 0 || index > size {
+		return fmt.Errorf("invalid index '%v' in a binary emf serialization", index)
+	}
+	return nil
+}
+
+func (d *BinaryDecoder) decodeSize() (int, error) {
+	size, err := d.decodeInt()
+	if err == nil && size < 0 {
+		err = fmt.Errorf("invalid size '%v' in a binary emf serialization", size)
+	}
+	return size, err
+}
+
 func (d *BinaryDecoder) decodeInt() (int, error) {
 	return d.decoder.DecodeInt()
 }
@@ -167,10 +190,17 @@ func (d *BinaryDecoder) decodeInterface() (any, error) {
 }
 
 func (d *BinaryDecoder) decodeSignature() error {
-	signature, err := d.decodeBytes()
+	// the size is checked first: what is not a serialization may have any
+	size, err := d.decoder.DecodeBytesLen()
 	if err != nil {
 		return err
 	}
+	signature := make([]byte, len(binarySignature))
+	if size == len(signature) {
+		if err := d.decoder.ReadFull(signature); err != nil {
+			return err
+		}
+	}
 	if !bytes.Equal(signature, binarySignature) {
 		return errors.New("invalid signature for a binary emf serialization")
 	}
@@ -197,7 +227,10 @@ func (d *BinaryDecoder) decodeObject() (EObject, error) {
 	case -1:
 		return nil, nil
 	default:
-		if len(d.objects) <= int(id) {
+		if err := checkIndex(id, len(d.objects)); err != nil {
+			return nil, err
+		}
+		if len(d.objects) == id {
 			var eResult EObject
 			eClassData, err := d.decodeClass()
 			if err != nil {
@@ -280,17 +313,17 @@ func (d *BinaryDecoder) decodeObject() (EObject, error) {
 }
 
 func (d *BinaryDecoder) decodeObjects(list EList) error {
-	size, err := d.decodeInt()
+	size, err := d.decodeSize()
 	if err != nil {
 		return err
 	}
-	objects := make([]any, size)
+	objects := []any{}
 	for i := 0; i < size; i++ {
 		object, err := d.decodeObject()
 		if err != nil {
 			return err
 		}
-		objects[i] = object
+		objects = append(objects, object)
 	}
 
 	// If the list is empty, we need to add all the objects,
@@ -372,7 +405,7 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		value := featureData.eFactory.CreateFromString(featureData.eDataType, decoded)
 		eObject.ESetFromID(featureData.featureID, value)
 	case bfkDataList:
-		size, err := d.decodeInt()
+		size, err := d.decodeSize()
 		if err != nil {
 			return err
 		}
@@ -393,7 +426,10 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		if err != nil {
 			return err
 		}
-		if len(d.enumLiterals) <= id {
+		if err := checkIndex(id, len(d.enumLiterals)); err != nil {
+			return err
+		}
+		if len(d.enumLiterals) == id {
 			decoded, err := d.decodeString()
 			if err != nil {
 				return err
@@ -500,7 +536,10 @@ func (d *BinaryDecoder) decodePackage() (*binaryDecoderPackageData, error) {
 	if err != nil {
 		return nil, err
 	}
-	if len(d.packageData) <= id {
+	if err := checkIndex(id, len(d.packageData)); err != nil {
+		return nil, err
+	}
+	if len(d.packageData) == id {
 		// decode package parameters
 		nsURI, err := d.decodeString()
 		if err != nil {
@@ -518,7 +557,7 @@ func (d *BinaryDecoder) decodePackage() (*binaryDecoderPackageData, error) {
 			packageRegistry = resourceSet.GetPackageRegistry()
 		}
 		ePackage := packageRegistry.GetPackage(nsURI)
-		if ePackage == nil && resourceSet != nil {
+		if ePackage == nil && resourceSet != nil && uri != nil {
 			ePackage, _ = resourceSet.GetEObject(uri, true).(EPackage)
 		}
 		if ePackage == nil {
@@ -544,7 +583,10 @@ func (d *BinaryDecoder) decodeURI() (*URI, error) {
 		return nil, nil
 	default:
 		var uri *URI
-		if len(d.uris) <= int(id) {
+		if err := checkIndex(id, len(d.uris)); err != nil {
+			return nil, err
+		}
+		if len(d.uris) == id {
 			// build uri
 			uriStr, err := d.decodeString()
 			if err != nil {
@@ -552,8 +594,10 @@ func (d *BinaryDecoder) decodeURI() (*URI, error) {
 			}
 			if uriStr == "" {
 				uri = d.baseURI
+			} else if parsed, err := ParseURI(uriStr); err != nil {
+				return nil, err
 			} else {
-				uri = d.resolveURI(NewURI(uriStr))
+				uri = d.resolveURI(parsed)
 			}
 			// add it to the uri array
 			d.uris = append(d.uris, uri)
@@ -591,6 +635,8 @@ func (d *BinaryDecoder) newClassData(ePackageData *binaryDecoderPackageData) (*b
 	eClass, _ := ePackage.GetEClassifier(className).(EClass)
 	if eClass == nil {
 		return nil, fmt.Errorf("unable to find class '%v' in package '%v'", className, ePackage.GetNsURI())
+	} else if eClass.IsAbstract() {
+		return nil, fmt.Errorf("class '%v' of package '%v' is abstract", className, ePackage.GetNsURI())
 	}
 	return &binaryDecoderClassData{
 		eClass:      eClass,
-- 
2.43.0


From 50f6039291b32e1fe3481c33fded239d76b11409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 75/84] fix: report the values of a binary resource which a
 feature can't hold

---
 ecore/binarydecoder.go | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/ecore/binarydecoder.go b/ecore/binarydecoder.go
index 5ed0181..19fe4f0 100644
--- a/ecore/binarydecoder.go
+++ b/ecore/binarydecoder.go
@@ -118,6 +118,14 @@ func (d *BinaryDecoder) DecodeObject() (EObject, error) {
 	return d.decodeObject()
 }
 
+// checkPermitted checks that a feature of an object may hold an object
+func checkPermitted(eObject EObject, eFeature EStructuralFeature, object EObject) error {
+	if object == nil || !isPermittedValue(eObject, eFeature, object) {
+		return fmt.Errorf("feature '%v' can't hold an object of a binary emf serialization", eFeature.GetName())
+	}
+	return nil
+}
+
 // checkIndex checks an index in a table of a given size: it is that of an element of the table
 // or that of a new element
 func checkIndex(index, size int) error {
@@ -312,7 +320,7 @@ func (d *BinaryDecoder) decodeObject() (EObject, error) {
 	}
 }
 
-func (d *BinaryDecoder) decodeObjects(list EList) error {
+func (d *BinaryDecoder) decodeObjects(list EList, check func(object EObject) error) error {
 	size, err := d.decodeSize()
 	if err != nil {
 		return err
@@ -325,6 +333,12 @@ func (d *BinaryDecoder) decodeObjects(list EList) error {
 		}
 		objects = append(objects, object)
 	}
+	for _, object := range objects {
+		object, _ := object.(EObject)
+		if err := check(object); err != nil {
+			return err
+		}
+	}
 
 	// If the list is empty, we need to add all the objects,
 	// otherwise, the reference is bidirectional and the list is at least partially populated.
@@ -387,6 +401,11 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		if err != nil {
 			return err
 		}
+		if decoded != nil {
+			if err := checkPermitted(eObject, featureData.eFeature, decoded); err != nil {
+				return err
+			}
+		}
 		eObject.ESetFromID(featureData.featureID, decoded)
 	case bfkObjectList:
 		fallthrough
@@ -396,13 +415,18 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		fallthrough
 	case bfkObjectContainmentListProxy:
 		l := eObject.EGetFromID(featureData.featureID, false).(EList)
-		return d.decodeObjects(l)
+		return d.decodeObjects(l, func(object EObject) error {
+			return checkPermitted(eObject, featureData.eFeature, object)
+		})
 	case bfkData:
 		decoded, err := d.decodeString()
 		if err != nil {
 			return err
 		}
-		value := featureData.eFactory.CreateFromString(featureData.eDataType, decoded)
+		value, err := createFromString(featureData.eFactory, featureData.eDataType, decoded)
+		if err != nil {
+			return err
+		}
 		eObject.ESetFromID(featureData.featureID, value)
 	case bfkDataList:
 		size, err := d.decodeSize()
@@ -415,7 +439,10 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 			if err != nil {
 				return err
 			}
-			value := featureData.eFactory.CreateFromString(featureData.eDataType, decoded)
+			value, err := createFromString(featureData.eFactory, featureData.eDataType, decoded)
+			if err != nil {
+				return err
+			}
 			values = append(values, value)
 		}
 		l := eObject.EGetResolve(featureData.eFeature, false).(EList)
@@ -439,7 +466,10 @@ func (d *BinaryDecoder) decodeFeatureValue(eObject EObjectInternal, featureData
 		} else {
 			valueStr = d.enumLiterals[id]
 		}
-		value := featureData.eFactory.CreateFromString(featureData.eDataType, valueStr)
+		value, err := createFromString(featureData.eFactory, featureData.eDataType, valueStr)
+		if err != nil {
+			return err
+		}
 		eObject.ESetFromID(featureData.featureID, value)
 	case bfkDate:
 		decoded, err := d.decodeDate()
-- 
2.43.0


From ef2eb593dcc71e84854f2b511df57968a520a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:39 +0000
Subject: [PATCH 76/84] fix: compare the components of URIs

---
 ecore/uri.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ecore/uri.go b/ecore/uri.go
index 56790d9..f3f14ab 100644
--- a/ecore/uri.go
+++ b/ecore/uri.go
@@ -442,7 +442,16 @@ func (uri *URI) ReplacePrefix(oldPrefix *URI, newPrefix *URI) *URI {
 }
 
 func (uri *URI) Equals(other *URI) bool {
-	return other != nil && (uri == other || uri.rawURI == other.rawURI)
+	// the components are compared, as they may be written in several ways: 'file:///path' is 'file:/path'
+	return other != nil && (uri == other || uri.rawURI == other.rawURI ||
+		(uri.scheme == other.scheme &&
+			uri.username == other.username &&
+			uri.password == other.password &&
+			uri.host == other.host &&
+			uri.port == other.port &&
+			uri.path == other.path &&
+			uri.query == other.query &&
+			uri.fragment == other.fragment))
 }
 
 func normalize(path string) string {
-- 
2.43.0


From e16b328393724e753431a2413a41b44fb9bfac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:40 +0000
Subject: [PATCH 77/84] fix: don't encode in JSON an object in itself

---
 ecore/jsonencoder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ecore/jsonencoder.go b/ecore/jsonencoder.go
index aa89457..a7a3612 100644
--- a/ecore/jsonencoder.go
+++ b/ecore/jsonencoder.go
@@ -13,6 +13,7 @@ type JSONEncoder struct {
 	resource        EResource
 	w               *jsonwriter.Writer
 	featureKinds    map[EStructuralFeature]jsonFeatureKind
+	encoding        map[EObject]struct{} // the objects being encoded
 	errorFn         func(diagnostic EDiagnostic)
 	idAttributeName string
 	keepDefaults    bool
@@ -23,6 +24,7 @@ func NewJSONEncoder(resource EResource, w io.Writer, options map[string]interfac
 		w:            jsonwriter.New(w),
 		resource:     resource,
 		featureKinds: map[EStructuralFeature]jsonFeatureKind{},
+		encoding:     map[EObject]struct{}{},
 	}
 	if options != nil {
 		e.idAttributeName, _ = options[JSON_OPTION_ID_ATTRIBUTE_NAME].(string)
@@ -57,6 +59,14 @@ func (e *JSONEncoder) encodeTopObject(eObject EObject) {
 }
 
 func (e *JSONEncoder) encodeObject(eObject EObject) {
+	// references which don't resolve proxies are encoded as objects: they may lead back to an object being encoded
+	if _, isEncoding := e.encoding[eObject]; isEncoding {
+		e.encodeObjectReference(eObject)
+		return
+	}
+	e.encoding[eObject] = struct{}{}
+	defer delete(e.encoding, eObject)
+
 	eClass := eObject.EClass()
 	// class
 	e.w.KeyString("eClass", e.getClassName(eClass))
-- 
2.43.0


From 999066f385ab78a8c497378ab8f6646b579daa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 78/84] fix: escape in JSON the texts of lists

---
 ecore/jsonencoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecore/jsonencoder.go b/ecore/jsonencoder.go
index a7a3612..a1bf6c6 100644
--- a/ecore/jsonencoder.go
+++ b/ecore/jsonencoder.go
@@ -129,7 +129,8 @@ func (e *JSONEncoder) encodeFeatureValue(eObject EObject, eFeature EStructuralFe
 			for it := l.Iterator(); it.HasNext(); {
 				str, ok := e.getData(it.Next(), eFeature)
 				if ok {
-					e.w.Value(str)
+					// as above, don't use the json escaping of jsonencoder
+					e.w.RawValue([]byte(jsonEscape(str)))
 				}
 			}
 		})
-- 
2.43.0


From 7357e543f0331dca18ae5bf43d1cf83408f80bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:32 +0000
Subject: [PATCH 79/84] fix: find the features of a XML document by their
 extended name first

---
 ecore/xmldecoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecore/xmldecoder.go b/ecore/xmldecoder.go
index 8e4bd2d..2ab0655 100644
--- a/ecore/xmldecoder.go
+++ b/ecore/xmldecoder.go
@@ -795,7 +795,8 @@ func (l *XMLDecoder) recordSchemaLocations(eObject EObject) {
 func (l *XMLDecoder) getFeature(eObject EObject, _, name string) EStructuralFeature {
 	eClass := eObject.EClass()
 	eFeature := eClass.GetEStructuralFeatureFromName(name)
-	if eFeature == nil && l.extendedMetaData != nil {
+	// the name in documents comes first: it may be the name of another feature
+	if l.extendedMetaData != nil && (eFeature == nil || name != l.extendedMetaData.GetName(eFeature)) {
 		features := eClass.GetEAllStructuralFeatures()
 		for it := features.Iterator(); it.HasNext(); {
 			feature := it.Next().(EStructuralFeature)
-- 
2.43.0


From d0348faf2968d31d381207625265e6af0a5082d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:58 +0000
Subject: [PATCH 80/84] fix: write the type of a root which is not that of its
 feature in the document root

---
 ecore/xmlencoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecore/xmlencoder.go b/ecore/xmlencoder.go
index 20e3fd3..8cd701d 100644
--- a/ecore/xmlencoder.go
+++ b/ecore/xmlencoder.go
@@ -162,12 +162,16 @@ func (s *XMLEncoder) saveTopObject(eObject EObject) {
 	eClass := eObject.EClass()
 	if s.extendedMetaData == nil || s.extendedMetaData.GetDocumentRoot(eClass.GetEPackage()) != eClass {
 		var name string
-		if rootFeature := s.getRootFeature(eClass); rootFeature != nil {
+		rootFeature := s.getRootFeature(eClass)
+		if rootFeature != nil {
 			name = s.getFeatureQName(rootFeature)
 		} else {
 			name = s.getClassQName(eClass)
 		}
 		s.str.startElement(name)
+		if rootFeature != nil && rootFeature.GetEType() != eClass {
+			s.saveTypeAttribute(eClass)
+		}
 		s.saveElementID(eObject)
 		s.saveFeatures(eObject, false)
 	} else {
-- 
2.43.0


From e67998bfc62b4bc2f3cdcf47b9805e64a4116bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 81/84] fix: tell the removed object of a range of a stored
 list

---
 ecore/estorelist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecore/estorelist.go b/ecore/estorelist.go
index a72784b..4b0f35b 100644
--- a/ecore/estorelist.go
+++ b/ecore/estorelist.go
@@ -324,7 +324,7 @@ func (list *EStoreList) performRemoveRange(fromIndex int, toIndex int) []any {
 			for i := fromIndex; i < toIndex; i++ {
 				object := list.store.Remove(list.owner, list.feature, fromIndex, true)
 				result = append(result, object)
-				listCallbacks.DidRemove(fromIndex, result)
+				listCallbacks.DidRemove(fromIndex, object)
 			}
 			listCallbacks.DidChange()
 		} else {
-- 
2.43.0


From e19ca8ad30c0606ce54e4ac985894b4dcf151f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:51 +0000
Subject: [PATCH 82/84] fix: empty collections and default values of a store
 are not set

---
 ecore/estoreeobject_impl.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index aef45e9..7f122bf 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -10,6 +10,8 @@
 package ecore
 
 import (
+	"reflect"
+
 	"github.com/SokaDance/rmx"
 )
 
@@ -180,8 +182,20 @@ func (o *EStoreEObjectImpl) EDynamicIsSet(dynamicFeatureID int) bool {
 	o.mutex.Lock()
 	defer o.mutex.Unlock()
 
-	if o.properties != nil && o.properties[dynamicFeatureID] != nil {
-		return true
+	if o.properties != nil {
+		switch value := o.properties[dynamicFeatureID].(type) {
+		case nil:
+		case EList:
+			return !value.Empty()
+		default:
+			if store := o.AsEStoreEObject().GetEStore(); store != nil {
+				// the value may be a default value read in the store
+				if eFeature := o.eDynamicFeature(dynamicFeatureID); !eFeature.IsTransient() {
+					return !reflect.DeepEqual(value, eFeature.GetDefaultValue())
+				}
+			}
+			return true
+		}
 	}
 	if store := o.AsEStoreEObject().GetEStore(); store != nil {
 		eFeature := o.eDynamicFeature(dynamicFeatureID)
-- 
2.43.0


From d62cae9c8086f0cca5587446ce30b3a3e88633b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:19 +0000
Subject: [PATCH 83/84] fix: keep transient values and attach maps when the
 store of an object changes

---
 ecore/estoreeobject_impl.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index 7f122bf..0c1a088 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -86,14 +86,17 @@ func (o *EStoreEObjectImpl) SetEStore(newStore EStore) {
 
 			// set children collection store
 			for _, v := range o.properties {
-				if storeList, isStoreList := v.(*EStoreList); isStoreList {
-					storeList.SetEStore(newStore)
+				switch collection := v.(type) {
+				case *EStoreList:
+					collection.SetEStore(newStore)
+				case *EStoreMap:
+					collection.SetEStore(newStore)
 				}
 			}
 
 			// clear properties because we are not caching
 			if !o.cache {
-				o.properties = nil
+				o.clearStoredProperties()
 			}
 		}
 	}
@@ -112,12 +115,28 @@ func (o *EStoreEObjectImpl) SetCache(cache bool) {
 			}
 		}
 		if o.store != nil {
-			o.properties = nil
+			o.clearStoredProperties()
 		}
 	}
 	o.mutex.Unlock()
 }
 
+// clear the properties that are in the store: the values of transient features are kept
+func (o *EStoreEObjectImpl) clearStoredProperties() {
+	properties := o.properties
+	o.properties = nil
+	for featureID, v := range properties {
+		switch v.(type) {
+		case nil, *EStoreList, *EStoreMap:
+			// nothing or a collection of the store
+		default:
+			if o.eDynamicFeature(featureID).IsTransient() {
+				o.getProperties()[featureID] = v
+			}
+		}
+	}
+}
+
 func (o *EStoreEObjectImpl) IsCache() bool {
 	o.mutex.Lock()
 	defer o.mutex.Unlock()
-- 
2.43.0


From 5acc887998ea7467878fad2d125836ffa30b7340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:46 +0000
Subject: [PATCH 84/84] fix: detach the collections of an object from its
 previous store

---
 ecore/estoreeobject_impl.go | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/ecore/estoreeobject_impl.go b/ecore/estoreeobject_impl.go
index 0c1a088..61fdd4f 100644
--- a/ecore/estoreeobject_impl.go
+++ b/ecore/estoreeobject_impl.go
@@ -73,10 +73,27 @@ func (o *EStoreEObjectImpl) SetEStore(newStore EStore) {
 		o.store = newStore
 		if newStore == nil {
 			// build cache with previous store
-			if !o.cache {
-				for featureID := range o.getProperties() {
-					if eFeature := o.eDynamicFeature(featureID); !eFeature.IsTransient() && !eFeature.IsMany() {
-						o.properties[featureID] = oldStore.Get(o.AsEObject(), eFeature, NO_INDEX)
+			for featureID, v := range o.getProperties() {
+				switch collection := v.(type) {
+				case *EStoreList:
+					collection.SetEStore(nil)
+				case *EStoreMap:
+					collection.SetEStore(nil)
+				case nil:
+					if eFeature := o.eDynamicFeature(featureID); !eFeature.IsTransient() && !IsContainer(eFeature) {
+						if !eFeature.IsMany() {
+							o.properties[featureID] = oldStore.Get(o.AsEObject(), eFeature, NO_INDEX)
+						} else if o.cache {
+							if IsMapType(eFeature) {
+								m := o.createMap(eFeature, oldStore)
+								m.SetEStore(nil)
+								o.properties[featureID] = m
+							} else {
+								l := o.createList(eFeature, oldStore)
+								l.SetEStore(nil)
+								o.properties[featureID] = l
+							}
+						}
 					}
 				}
 			}
@@ -238,9 +255,9 @@ func (o *EStoreEObjectImpl) EDynamicGet(dynamicFeatureID int) any {
 		if eFeature := o.eDynamicFeature(dynamicFeatureID); !eFeature.IsTransient() {
 			if eFeature.IsMany() {
 				if IsMapType(eFeature) {
-					result = o.createMap(eFeature)
+					result = o.createMap(eFeature, o.AsEStoreEObject().GetEStore())
 				} else {
-					result = o.createList(eFeature)
+					result = o.createList(eFeature, o.AsEStoreEObject().GetEStore())
 				}
 				// feature is a container : create corresponding container type and cache it
 				// in properties to avoid multiple allocation of the same container
@@ -303,15 +320,15 @@ func (o *EStoreEObjectImpl) eDynamicFeature(dynamicFeatureID int) EStructuralFea
 	return o.EClass().GetEStructuralFeature(o.EStaticFeatureCount() + dynamicFeatureID)
 }
 
-func (o *EStoreEObjectImpl) createList(eFeature EStructuralFeature) EList {
-	l := NewEStoreList(o.AsEObject(), eFeature, o.AsEStoreEObject().GetEStore())
+func (o *EStoreEObjectImpl) createList(eFeature EStructuralFeature, store EStore) *EStoreList {
+	l := NewEStoreList(o.AsEObject(), eFeature, store)
 	l.SetCache(o.cache)
 	return l
 }
 
-func (o *EStoreEObjectImpl) createMap(eFeature EStructuralFeature) EMap {
+func (o *EStoreEObjectImpl) createMap(eFeature EStructuralFeature, store EStore) *EStoreMap {
 	eClass := eFeature.GetEType().(EClass)
-	m := NewEStoreMap(eClass, o.AsEObject(), eFeature, o.AsEStoreEObject().GetEStore())
+	m := NewEStoreMap(eClass, o.AsEObject(), eFeature, store)
 	m.SetCache(o.cache)
 	return m
 }
-- 
2.43.0

