From b0217b8344bbf0a024d5c958531a47ebdf39339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 01/69] fix: FUObjectRef: detach the object from the other
 reference when exchanging references

---
 FCollada/FUtils/FUObject.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUObject.h b/FCollada/FUtils/FUObject.h
index 8f183bc..8b20a8e 100644
--- a/FCollada/FUtils/FUObject.h
+++ b/FCollada/FUtils/FUObject.h
@@ -198,8 +198,14 @@ public:
 		@return This reference. */
 	FUObjectRef<ObjectClass>& operator=(FUObjectRef<ObjectClass>& _ptr)
 	{
-		operator=(_ptr.ptr);
-		_ptr.ptr = NULL;
+		if (this != &_ptr)
+		{
+			// The other reference must let go of the object before it can be owned here.
+			ObjectClass* object = _ptr.ptr;
+			if (object != NULL) _ptr.DetachObject((FUObject*) object);
+			_ptr.ptr = NULL;
+			operator=(object);
+		}
 		return *this;
 	}
 
-- 
2.43.0


From 2af191aa15ead8cc4029826b1b0191cf12e09980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 02/69] fix: FUTrackedPtr: track the object in copy-constructed
 pointers

---
 FCollada/FUtils/FUTracker.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index 4fdc8f8..eb295a1 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -121,6 +121,14 @@ public:
 		if (ptr != NULL) FUTracker::TrackObject((FUTrackable*) ptr);
 	}
 
+	/** Copy constructor.
+		The new pointer tracks the object on its own.
+		@param _ptr The tracking pointer to copy. */
+	FUTrackedPtr(const FUTrackedPtr& _ptr) : FUTracker(), ptr(_ptr.ptr)
+	{
+		if (ptr != NULL) FUTracker::TrackObject((FUTrackable*) ptr);
+	}
+
 	/** Destructor.
 		Stops the tracking of the pointer. */
 	~FUTrackedPtr()
-- 
2.43.0


From 17896ee8b9090ea44110751ea79778d0a19536eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 03/69] fix: FUTrackedList: track the objects of copied lists

---
 FCollada/FUtils/FUTracker.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index eb295a1..be44017 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -342,14 +342,25 @@ public:
 	virtual bool TracksObject(const FUTrackable* object) const { return Parent::contains((ObjectClass*) object); }
 
 	/** Copy constructor. @param other The FUTrackedList to clone. */
-	FUTrackedList<ObjectClass>(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList<ObjectClass>(const FUTrackedList<ObjectClass>& other) : Parent(), FUTracker()
+	{
+		insert(begin(), other.begin(), other.end());
+	}
 
 	/** Clones a list of tracked objects.
 		This list will stop tracking all its current tracked objects
 		and will start tracking the objects within the other list.
 		@param other A second list of tracked objects.
 		@return This list. */
-	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other)
+	{
+		if (this != &other)
+		{
+			clear();
+			insert(begin(), other.begin(), other.end());
+		}
+		return *this;
+	}
 
 	inline bool empty() const { return Parent::empty(); } /**< Inherited from pvector. */
 	inline size_t size() const { return Parent::size(); } /**< Inherited from pvector. */
-- 
2.43.0


From ed6ed7c69948452bf0e64549ba5f3efc50868e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 04/69] fix: FUEvent: release exactly one handler of the
 object, and none when it has none

---
 FCollada/FUtils/FUEvent.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUEvent.h b/FCollada/FUtils/FUEvent.h
index 27e5983..63f7cb6 100644
--- a/FCollada/FUtils/FUEvent.h
+++ b/FCollada/FUtils/FUEvent.h
@@ -18,6 +18,7 @@
 #ifndef _FU_EVENT_H_
 #define _FU_EVENT_H_
 
+#include <algorithm>
 #include <functional>
 #include <vector>
 
@@ -55,8 +56,9 @@ public:
 		@param function The address of the function callback to unregister. */
 	void ReleaseHandler(void* object)
 	{
-		handlers.erase(std::remove_if(handlers.begin(), handlers.end(),
-					[object](auto t){ return std::get<0>(t) == object; }));
+		auto it = std::find_if(handlers.begin(), handlers.end(),
+					[object](const auto& t){ return std::get<0>(t) == object; });
+		if (it != handlers.end()) handlers.erase(it);
 	}
 
 	/**
-- 
2.43.0


From ebb1edfd4554092de0b25dc907f15d55e5d6cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 05/69] fix: FUError: let an error handler raise notifications
 and (de)register handlers

---
 FCollada/FUtils/FUError.cpp | 8 ++++----
 FCollada/FUtils/FUError.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/FCollada/FUtils/FUError.cpp b/FCollada/FUtils/FUError.cpp
index b4c45ed..edb8670 100644
--- a/FCollada/FUtils/FUError.cpp
+++ b/FCollada/FUtils/FUError.cpp
@@ -12,7 +12,7 @@
 //
 // FUError
 //
-std::mutex FUError::errorMutex;
+std::recursive_mutex FUError::errorMutex;
 
 FUEvent<FUError::Level, uint32, uint32> FUError::onErrorEvent;
 FUEvent<FUError::Level, uint32, uint32> FUError::onWarningEvent;
@@ -31,7 +31,7 @@ FUError::~FUError()
 
 bool FUError::Error(FUError::Level errorLevel, uint32 errorCode, uint32 errorArgument)
 {
-	const std::lock_guard<std::mutex> lock(errorMutex);
+	const std::lock_guard<std::recursive_mutex> lock(errorMutex);
 
 	switch (errorLevel)
 	{
@@ -47,7 +47,7 @@ bool FUError::Error(FUError::Level errorLevel, uint32 errorCode, uint32 errorArg
 void FUError::AddErrorCallback(FUError::Level errorLevel, void* object,
 		std::function<void(FUError::Level, uint32, uint32)> callback)
 {
-	const std::lock_guard<std::mutex> lock(errorMutex);
+	const std::lock_guard<std::recursive_mutex> lock(errorMutex);
 
 	switch (errorLevel)
 	{
@@ -60,7 +60,7 @@ void FUError::AddErrorCallback(FUError::Level errorLevel, void* object,
 
 void FUError::RemoveErrorCallback(FUError::Level errorLevel, void* object)
 {
-	const std::lock_guard<std::mutex> lock(errorMutex);
+	const std::lock_guard<std::recursive_mutex> lock(errorMutex);
 
 	switch (errorLevel)
 	{
diff --git a/FCollada/FUtils/FUError.h b/FCollada/FUtils/FUError.h
index 3025d11..8e5bbaf 100644
--- a/FCollada/FUtils/FUError.h
+++ b/FCollada/FUtils/FUError.h
@@ -238,7 +238,7 @@ public:
 	};
 
 private:
-	static std::mutex errorMutex;
+	static std::recursive_mutex errorMutex;
 
 	static FUEvent<FUError::Level, uint32, uint32> onErrorEvent;
 	static FUEvent<FUError::Level, uint32, uint32> onWarningEvent;
-- 
2.43.0


From f749ad4723483fbe4222edb433d52b636b960465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 06/69] fix: fm::vector: insert an element of the list itself

---
 FCollada/FMath/FMArray.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index 41c8859..f8c21f5 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -376,6 +376,12 @@ namespace fm
 		iterator insert(iterator it, const T& item)
 		{
 			FUAssert(it >= begin() && it <= end(), return it);
+			if (&item >= begin() && &item < end())
+			{
+				// The item belongs to this list: it moves as soon as the list changes.
+				const T copy(item);
+				return insert(it, copy);
+			}
 			if (sized == reserved)
 			{
 				size_t offset = it - begin();
@@ -459,6 +465,13 @@ namespace fm
 			if (count > 0)
 			{
 				FUAssert(it >= begin() && it <= end(), return);
+				if (&item >= begin() && &item < end())
+				{
+					// The item belongs to this list: it moves as soon as the list changes.
+					const T copy(item);
+					insert(it, count, copy, noInit);
+					return;
+				}
 				if (sized + count > reserved)
 				{
 					size_t offset = it - begin();
-- 
2.43.0


From a09bcf51a47987d924e3898f4213a42e175ee618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 07/69] fix: fm::tree: copy constructor and self-assignment

---
 FCollada/FMath/FMTree.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/FCollada/FMath/FMTree.h b/FCollada/FMath/FMTree.h
index b55dbeb..3a638f8 100644
--- a/FCollada/FMath/FMTree.h
+++ b/FCollada/FMath/FMTree.h
@@ -368,6 +368,15 @@ namespace fm
 			fm::Construct(root);
 		}
 
+		/** Copy constructor. Clones another tree into this one.
+			@param copy The tree to clone. */
+		tree(const tree& copy) : root(NULL), sized(0)
+		{
+			root = (node*) fm::Allocate(sizeof(node));
+			fm::Construct(root);
+			(*this) = copy;
+		}
+
 		/** Destructor. */
 		~tree()
 		{
@@ -623,6 +632,7 @@ namespace fm
 			@return This tree, cloned. */
 		inline tree<KEY,DATA>& operator= (const tree<KEY,DATA>& copy)
 		{
+			if (this == &copy) return (*this);
 			clear();
 
 			// Function based on the iterator..
-- 
2.43.0


From cd379b305dbe5f9b5ee3fc0f705c86f32cc4e9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 08/69] fix: fm::vector: destroy the elements moved to a larger
 buffer

---
 FCollada/FMath/FMArray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index f8c21f5..dc49360 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -337,6 +337,7 @@ namespace fm
 							for(size_t i = 0; i < sized; ++i)
 							{
 								fm::Construct(newValues + i, *(heapBuffer + i));
+								(*(heapBuffer + i)).~T();
 							}
 						}
 					}
-- 
2.43.0


From c9889c73fa1b6d652ac37caae3971d2830dad692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 09/69] fix: fm::pvector: self-assignment

---
 FCollada/FMath/FMArrayPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMArrayPointer.h b/FCollada/FMath/FMArrayPointer.h
index 2551579..a56476a 100644
--- a/FCollada/FMath/FMArrayPointer.h
+++ b/FCollada/FMath/FMArrayPointer.h
@@ -212,7 +212,7 @@ namespace fm
 			Overwrites the current data of the pointer array with the data of the given pointer array.
 			@param other The pointer array to copy.
 			@return The copied pointer array. */
-		pvector<T>& operator= (const pvector<T>& other) { clear(); insert(end(), other.begin(), other.end()); return *this; }
+		pvector<T>& operator= (const pvector<T>& other) { if (this != &other) { clear(); insert(end(), other.begin(), other.end()); } return *this; }
 
 		/** Resizes the pointer array to the given amount.
 			It is intentional that the default value is NULL.
-- 
2.43.0


From bdbddc6a489c9921cb25e207b6fa183bda61d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 10/69] fix: FUUniqueStringMap: keep strings with leading zeros
 or long numeric suffixes apart

---
 FCollada/FUtils/FUUniqueStringMap.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUUniqueStringMap.cpp b/FCollada/FUtils/FUUniqueStringMap.cpp
index bab61e7..4fe9021 100644
--- a/FCollada/FUtils/FUUniqueStringMap.cpp
+++ b/FCollada/FUtils/FUUniqueStringMap.cpp
@@ -13,15 +13,18 @@
 template <class CH>
 inline void SplitString(const fm::stringT<CH>& str, fm::stringT<CH>& prefix, uint32& suffix)
 {
-	// Remove the suffix from the string.
+	// Remove the suffix from the string: at most nine digits, which always fit in the 32-bit suffix.
 	size_t len = str.length();
 	prefix = str;
-	while (len > 0 && prefix[len-1] >= '0' && prefix[len-1] <= '9')
+	while (len > 0 && prefix[len-1] >= '0' && prefix[len-1] <= '9' && str.length() - len < 9)
 	{
 		prefix.erase(len-1, len);
 		--len;
 	}
 
+	// The leading zeros belong to the prefix, otherwise 'A01' and 'A1' would be the same string.
+	for (; len + 1 < str.length() && str[len] == '0'; ++len) prefix.append(str[len]);
+
 	// Parse the suffix: if no suffix is present, use -1.
 	size_t offset = prefix.length();
 	if (offset == str.length()) suffix = ~(uint32)0;
@@ -59,6 +62,8 @@ void FUUniqueStringMapT<CH>::insert(fm::stringT<CH>& wantedStr)
 		FUStringBuilderT<CH> builder(prefix);
 		builder.append(suffix);
 		wantedStr = builder.ToString();
+		insert(wantedStr);
+		return;
 	}
 
 	// Insert our suffix in the known list.
-- 
2.43.0


From ec0718b4d4a25c9d017fdd4674d5202275898f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 11/69] fix: FCDObjectWithId::Clone: unregister the id that the
 clone had

---
 FCollada/FCDocument/FCDObjectWithId.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDObjectWithId.cpp b/FCollada/FCDocument/FCDObjectWithId.cpp
index e23c7db..8ea7aeb 100644
--- a/FCollada/FCDocument/FCDObjectWithId.cpp
+++ b/FCollada/FCDocument/FCDObjectWithId.cpp
@@ -33,6 +33,7 @@ FCDObjectWithId::~FCDObjectWithId()
 
 void FCDObjectWithId::Clone(FCDObjectWithId* clone) const
 {
+	clone->RemoveDaeId();
 	clone->daeId = daeId;
 	const_cast<FCDObjectWithId*>(this)->RemoveDaeId();
 }
-- 
2.43.0


From 9cabc6360404cc897ebf6782216f5a22682606b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 12/69] fix: FCDSceneNode: keep the child nodes that another
 scene node still holds

---
 FCollada/FCDocument/FCDSceneNode.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/FCollada/FCDocument/FCDSceneNode.cpp b/FCollada/FCDocument/FCDSceneNode.cpp
index fa6a8c6..faad108 100644
--- a/FCollada/FCDocument/FCDSceneNode.cpp
+++ b/FCollada/FCDocument/FCDSceneNode.cpp
@@ -71,18 +71,14 @@ FCDSceneNode::~FCDSceneNode()
 		{
 			// Check for external references in the parents
 			bool hasLocalReferences = false;
-			size_t parentCount = parents.size();
+			size_t parentCount = child->parents.size();
 			for (size_t p = 0; p < parentCount; ++p)
 			{
-				FCDSceneNode* parent = parents[p];
-				if (parent == this) children.erase(parent);
-				else
-				{
-					hasLocalReferences |= parent->GetDocument() == GetDocument();
-				}
+				hasLocalReferences |= child->parents[p]->GetDocument() == GetDocument();
 			}
 
-			if (!hasLocalReferences) SAFE_RELEASE(child);
+			if (hasLocalReferences) children.erase(child);
+			else SAFE_RELEASE(child);
 		}
 	}
 }
-- 
2.43.0


From c226288da82060e208a93f2813bbfb15a3734b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 13/69] fix: FCDSceneNode::SetSubId: clean the sub ids that get
 a number

---
 FCollada/FCDocument/FCDSceneNode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDSceneNode.cpp b/FCollada/FCDocument/FCDSceneNode.cpp
index faad108..72b66f4 100644
--- a/FCollada/FCDocument/FCDSceneNode.cpp
+++ b/FCollada/FCDocument/FCDSceneNode.cpp
@@ -207,7 +207,7 @@ void FCDSceneNode::SetSubId(const fm::string& subId)
 	int32 idMod = 0;
 	while (FindSubId(newSubId) != NULL || parentSubIds.find(newSubId) != parentSubIds.end())
 	{
-		newSubId = subId + "_" + FUStringConversion::ToString(idMod++);
+		newSubId = FCDObjectWithId::CleanSubId(subId) + "_" + FUStringConversion::ToString(idMod++);
 
 		// Dont keep doing this forever.
 		if (idMod > 512) break;
-- 
2.43.0


From 54b7380ddcfb5b0ae28c6241a66c4212c803bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 14/69] fix: FCDAnimationCurve::Evaluate: extrapolate backwards
 along the slope of the first keys

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index ad8c072..c350d04 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -329,7 +329,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 		switch (preInfinity)
 		{
 		case FUDaeInfinity::CONSTANT: return outputStart;
-		case FUDaeInfinity::LINEAR: return outputStart + inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
+		case FUDaeInfinity::LINEAR: return outputStart - inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
 		case FUDaeInfinity::CYCLE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; break; }
 		case FUDaeInfinity::CYCLE_RELATIVE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; outputOffset -= cycleCount * outputSpan; break; }
 		case FUDaeInfinity::OSCILLATE: { float cycleCount = ceilf(inputDifference / (2.0f * inputSpan)); input += cycleCount * 2.0f * inputSpan; input = inputEnd - fabsf(input - inputEnd); break; }
-- 
2.43.0


From 64335a154f238e03ef91831fbc95262404de5689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 15/69] fix: FCDAnimationCurve::Evaluate: use the key at the
 evaluated input, also among keys with equal inputs

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index c350d04..7ad7c2f 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -364,9 +364,10 @@ float FCDAnimationCurve::Evaluate(float input) const
 	// Linear search is more efficient on the last interval
 	for (it = start; it != terminate; ++it)
 	{
-		if ((*it)->input >= input) break;
+		if ((*it)->input > input) break;
 	}
 	if (it == keys.begin()) return outputOffset + outputStart;
+	if (it == keys.end()) return outputOffset + outputEnd;
 
 	// Get the keys and values for this interval
 	const FCDAnimationKey* startKey = *(it - 1);
-- 
2.43.0


From 05cd5e576209cb0df2d3ed2f87753b111de379b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 16/69] fix: FCDAnimationCurve::Evaluate: TCB segments after
 the first one

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 7ad7c2f..39ab8c7 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -455,7 +455,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 			const FCDAnimationKey* nextKey = (it + 1) < keys.end() ? (*(it + 1)) : NULL;
 			ComputeTCBTangent(startKey, endKey, nextKey, tkey2->tension, tkey2->continuity, tkey2->bias, endTangent, tempTangent);
 			cy = endKey->output + endTangent.y; //Assuming the tangent is GOING from the point.
-			cx = endKey->output + endTangent.x;
+			cx = endKey->input + endTangent.x;
 		}
 		else if (endKey->interpolation == FUDaeInterpolation::BEZIER) {
 			FCDAnimationKeyBezier* tkey2 = (FCDAnimationKeyBezier*) endKey;
@@ -463,7 +463,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 			cy = endTangent.y;
 			cx = endTangent.x;
 		}
-		float t = (input - inputStart) / inputInterval;
+		float t = (input - startKey->input) / inputInterval;
 		by = startKey->output - startTangent.y; //Assuming the tangent is GOING from the point.
 		bx = startKey->input - startTangent.x;
 
-- 
2.43.0


From 7262ed5515bfe257521cc8b45e6ced84ac158707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 17/69] fix: FCDAnimationCurve::Clone: delete the keys that the
 clone had

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 39ab8c7..91bb29f 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -227,7 +227,7 @@ FCDAnimationCurve* FCDAnimationCurve::Clone(FCDAnimationCurve* clone, bool inclu
 	clone->SetTargetQualifier(targetQualifier);
 
 	// Pre-buffer the list of keys and clone them.
-	clone->keys.clear();
+	CLEAR_POINTER_VECTOR(clone->keys);
 	clone->keys.reserve(keys.size());
 	for (FCDAnimationKeyList::const_iterator it = keys.begin(); it != keys.end(); ++it)
 	{
-- 
2.43.0


From 25c45a28582748fd56ab4436d07b08c232e91d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 18/69] fix: FCDAnimationCurve: one offset for each registered
 clip, kept by clones

---
 FCollada/FCDocument/FCDAnimationClip.cpp  |  1 -
 FCollada/FCDocument/FCDAnimationCurve.cpp | 17 +++++++----------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationClip.cpp b/FCollada/FCDocument/FCDAnimationClip.cpp
index 0fe71a6..17aae3b 100644
--- a/FCollada/FCDocument/FCDAnimationClip.cpp
+++ b/FCollada/FCDocument/FCDAnimationClip.cpp
@@ -61,7 +61,6 @@ FCDEntity* FCDAnimationClip::Clone(FCDEntity* _clone, bool cloneChildren) const
 			if (cloneChildren)
 			{
 				FCDAnimationCurve* clonedCurve = (*it)->Clone(NULL, false);
-				clonedCurve->AddClip(clone);
 				clone->AddClipCurve(clonedCurve);
 			}
 		}
diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 91bb29f..4de056e 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -196,7 +196,7 @@ bool FCDAnimationCurve::DeleteKey(FCDAnimationKey* key)
 
 void FCDAnimationCurve::AddClip(FCDAnimationClip* clip)
 {
-    clips.push_back(clip);
+    RegisterAnimationClip(clip);
 }
 
 bool FCDAnimationCurve::HasDriver() const
@@ -258,19 +258,16 @@ FCDAnimationCurve* FCDAnimationCurve::Clone(FCDAnimationCurve* clone, bool inclu
 	clone->inputDriver = inputDriver;
 	clone->inputDriverIndex = inputDriverIndex;
 
+	clone->currentOffset = currentOffset;
+
 	if (includeClips)
 	{
-		// Animation clips that depend on this curve
-		for (FCDAnimationClipList::const_iterator it = clips.begin(); it != clips.end(); ++it)
+		// Clone the clips, with their offsets.
+		for (size_t i = 0; i < clips.size(); ++i)
 		{
-			FCDAnimationClip* clonedClip = (FCDAnimationClip*) (*it)->Clone(0, false);
+			FCDAnimationClip* clonedClip = (FCDAnimationClip*) clips[i]->Clone(0, false);
 			clonedClip->AddClipCurve(clone);
-			clone->AddClip(clonedClip);
-		}
-
-		for (FloatList::const_iterator it = clipOffsets.begin(); it != clipOffsets.end(); ++it)
-		{
-			clone->clipOffsets.push_back(*it);
+			clone->clipOffsets.back() = clipOffsets[i];
 		}
 	}
 
-- 
2.43.0


From 221e230aa6bf98b6945581cba13146ca80d95fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 19/69] fix: FCDAnimationCurve::SetCurrentAnimationClip: move
 the tangents along with the keys

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 4de056e..9066c5f 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -297,6 +297,12 @@ void FCDAnimationCurve::SetCurrentAnimationClip(FCDAnimationClip* clip)
 		for (FCDAnimationKeyList::iterator it = keys.begin(); it != keys.end(); ++it)
 		{
 			(*it)->input += offset;
+			if ((*it)->interpolation == FUDaeInterpolation::BEZIER)
+			{
+				FCDAnimationKeyBezier* bkey = (FCDAnimationKeyBezier*) (*it);
+				bkey->inTangent.x += offset;
+				bkey->outTangent.x += offset;
+			}
 		}
 	}
 
-- 
2.43.0


From e2d7cb851f0b9ee1f516af1758436f05fe201518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 20/69] fix: FCDGeometryPolygons::RemoveFace erases exactly the
 face and its holes

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 5e411a4..6ff96c7 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -107,7 +107,16 @@ void FCDGeometryPolygons::RemoveFace(size_t index)
 	// Remove the face and its holes
 	size_t holeBefore = GetHoleCountBefore(index);
 	size_t holeCount = GetHoleCount(index);
-	faceVertexCounts.erase(index + holeBefore, holeCount + 1); // +1 in order to remove the polygon as well as the holes.
+	size_t firstRemoved = index + holeBefore;
+	size_t lastRemoved = firstRemoved + holeCount + 1; // +1 in order to remove the polygon as well as the holes.
+	faceVertexCounts.erase(firstRemoved, lastRemoved);
+
+	// Forget about the removed holes and move back the holes of the following faces.
+	for (size_t i = holeFaces.size(); i > 0; --i)
+	{
+		if (holeFaces[i - 1] >= lastRemoved) holeFaces[i - 1] -= (uint32) (holeCount + 1);
+		else if (holeFaces[i - 1] > firstRemoved) holeFaces.erase(i - 1);
+	}
 
 	parent->Recalculate();
 	SetDirtyFlag();
-- 
2.43.0


From 05cb29d8f2ac5f0e2c55119fdf7253b955f792ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 21/69] fix: FCDGeometryPolygons::Clone keeps the primitive
 type and every input in order

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 6ff96c7..447c6aa 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -307,9 +307,13 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 	clone->holeOffset = holeOffset;
 	clone->holeFaces = holeFaces;
 
+	clone->primitiveType = primitiveType;
+
 	// Clone the geometry inputs
-	// Note that the vertex source inputs are usually created by default.
+	// Note that the vertex source inputs are usually created by default: start anew,
+	// so that the clone has the same inputs, in the same order.
 	size_t inputCount = inputs.size();
+	clone->inputs.clear();
 	clone->inputs.reserve(inputCount);
 	for (size_t i = 0; i < inputCount; ++i)
 	{
@@ -327,12 +331,8 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 			cloneSource = (*it).second;
 		}
 
-		// Retrieve or create the input to clone.
-		FCDGeometryPolygonsInput* input = clone->FindInput(cloneSource);
-		if (input == NULL)
-		{
-			input = clone->AddInput(cloneSource, inputs[i]->GetOffset());
-		}
+		// Create the cloned input.
+		FCDGeometryPolygonsInput* input = clone->AddInput(cloneSource, inputs[i]->GetOffset());
 
 		// Clone the input information.
 		if (inputs[i]->OwnsIndices())
-- 
2.43.0


From a65b5319d40ddc2d741f96517b07233b7ad59569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 22/69] fix: a released polygons input hands its indices to the
 inputs that share them

---
 .../FCDocument/FCDGeometryPolygonsInput.cpp   | 32 +++++++++++--------
 .../FCDocument/FCDGeometryPolygonsInput.h     |  3 ++
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
index 2e32322..24956e5 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
@@ -35,6 +35,9 @@ FCDGeometryPolygonsInput::~FCDGeometryPolygonsInput()
 		UntrackObject(source);
 		source = NULL;
 	}
+
+	// The indices may be shared with the other inputs of the polygons set.
+	if (parent->GetParent() != NULL) ShareIndices();
 }
 
 FUDaeGeometryInput::Semantic FCDGeometryPolygonsInput::GetSemantic() const
@@ -60,20 +63,23 @@ void FCDGeometryPolygonsInput::OnObjectReleased(FUTrackable* object)
 		source = NULL;
 
 		// Verify whether we own/share the index list.
-		if (!indices.empty())
+		ShareIndices();
+	}
+}
+
+// Moves our list of indices to another input that uses the same offset.
+void FCDGeometryPolygonsInput::ShareIndices()
+{
+	if (indices.empty()) return;
+	size_t inputCount = parent->GetInputCount();
+	for (size_t i = 0; i < inputCount; ++i)
+	{
+		FCDGeometryPolygonsInput* other = parent->GetInput(i);
+		if (other != this && other->offset == offset)
 		{
-			size_t inputCount = parent->GetInputCount();
-			for (size_t i = 0; i < inputCount; ++i)
-			{
-				FCDGeometryPolygonsInput* other = parent->GetInput(i);
-				if (other->offset == offset)
-				{
-					// Move the shared list of indices to the other input.
-					other->indices = indices;
-					indices.clear();
-					break;
-				}
-			}
+			other->indices = indices;
+			indices.clear();
+			break;
 		}
 	}
 }
diff --git a/FCollada/FCDocument/FCDGeometryPolygonsInput.h b/FCollada/FCDocument/FCDGeometryPolygonsInput.h
index 9b2b57c..3bce701 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsInput.h
+++ b/FCollada/FCDocument/FCDGeometryPolygonsInput.h
@@ -153,6 +153,9 @@ private:
 	// FUTracker interface.
 	virtual void OnObjectReleased(FUTrackable* object);
 
+	// Moves our list of indices to another input that uses the same offset.
+	void ShareIndices();
+
 	// Finds the index buffer for this list.
 	FUParameterUInt32List& FindIndices() { return const_cast<FUParameterUInt32List&>(const_cast<const FCDGeometryPolygonsInput*>(this)->FindIndices()); }
 	const FUParameterUInt32List& FindIndices() const;
-- 
2.43.0


From 47f23596ae409108b778b214375561f017d24b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 23/69] fix: FCDGeometryMesh::AddVertexSource keeps the indices
 of an input at offset 0

---
 FCollada/FCDocument/FCDGeometryMesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDGeometryMesh.cpp b/FCollada/FCDocument/FCDGeometryMesh.cpp
index c5d84ea..8e122c8 100644
--- a/FCollada/FCDocument/FCDGeometryMesh.cpp
+++ b/FCollada/FCDocument/FCDGeometryMesh.cpp
@@ -184,6 +184,7 @@ void FCDGeometryMesh::AddVertexSource(FCDGeometrySource* source)
 	for (size_t p = 0; p < polygonsCount; ++p)
 	{
 		FCDGeometryPolygonsInput* input = polygons[p]->FindInput(source);
+		if (input != NULL && input->GetOffset() == 0) continue;
 		int32 set = (input != NULL) ? input->GetSet() : -1;
 		SAFE_RELEASE(input);
 		input = polygons[p]->AddInput(source, 0);
-- 
2.43.0


From b8a2518fc78731941e8e13cca86fe4500f030192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 24/69] fix: FitIndexBuffers keeps the primitive type and the
 inputs of the split polygons set

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 1e62a0c..4d49b04 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -1123,6 +1123,10 @@ namespace FCDGeometryPolygonsTools
 				// Create a new polygons set and copy the basic information from the first polygons set.
 				FCDGeometryPolygons* polygonsCopy = mesh->AddPolygons();
 				polygonsCopy->SetMaterialSemantic(polygons->GetMaterialSemantic());
+				polygonsCopy->SetPrimitiveType(polygons->GetPrimitiveType());
+
+				// The inputs are all copied below: drop the ones that were created by default.
+				while (polygonsCopy->GetInputCount() > 0) polygonsCopy->GetInput(0)->Release();
 
 				// Figure out which faces will be moved to this polygons set.
 				faceVertexCount = 0;
@@ -1141,11 +1145,8 @@ namespace FCDGeometryPolygonsTools
 				for (size_t j = 0; j < inputCount; ++j)
 				{
 					FCDGeometryPolygonsInput* input = polygons->GetInput(j);
-					FCDGeometrySource* source = input->GetSource();
-					FCDGeometryPolygonsInput* inputCopy;
-					if (!mesh->IsVertexSource(source)) inputCopy = polygonsCopy->AddInput(source, input->GetOffset());
-					else inputCopy = polygonsCopy->FindInput(source);
-					FUAssert(inputCopy != NULL, continue);
+					FCDGeometryPolygonsInput* inputCopy = polygonsCopy->AddInput(input->GetSource(), input->GetOffset());
+					inputCopy->SetSet(input->GetSet());
 
 					// For owners, copy the indices over.
 					size_t indexCopyCount = inputCopy->GetIndexCount();
-- 
2.43.0


From 099db5bfa97482bfb8481ce0f9c4e82d099fa9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 25/69] fix: GenerateUniqueIndices on one polygons set
 duplicates only the sources that the set uses

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 4d49b04..6d12592 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -698,6 +698,7 @@ namespace FCDGeometryPolygonsTools
 		for (size_t d = 0; d < meshSourceCount; ++d)
 		{
 			FCDGeometrySource* oldSource = mesh->GetSource(d);
+			if (polygonsToProcess != NULL && polygonsToProcess->FindInput(oldSource) == NULL) continue;
 			uint32 stride = oldSource->GetStride();
 			const float* oldVertexData = oldSource->GetData();
 			bool isPositionSource = oldSource->GetType() == FUDaeGeometryInput::POSITION && translationMap != NULL;
-- 
2.43.0


From 33c5456f5d2132933f83f1e35652c3c2340812bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 26/69] fix: FCDParameterListAnimatable::resize with a value
 releases the animations of the removed values only

---
 FCollada/FCDocument/FCDParameterAnimatable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.hpp b/FCollada/FCDocument/FCDParameterAnimatable.hpp
index ddf6745..98ca978 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.hpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.hpp
@@ -186,7 +186,7 @@ template <class TYPE, int QUALIFIERS>
 void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::resize(size_t count, const TYPE& value)
 {
 	if (count > values.size()) OnInsertion(values.size(), count - values.size());
-	else if (count < values.size()) OnRemoval(count - values.size(), values.size());
+	else if (count < values.size()) OnRemoval(count, values.size() - count);
 	values.resize(count, value);
 	OnPotentialSizeChange();
 }
-- 
2.43.0


From 6b1cd4d8c0610c09a54f2a2f9c35ba099b3161d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 27/69] fix: FCDParameterListAnimatable updates the value
 pointers of every animated element when elements move

---
 FCollada/FCDocument/FCDParameterAnimatable.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.hpp b/FCollada/FCDocument/FCDParameterAnimatable.hpp
index 98ca978..02ea272 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.hpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.hpp
@@ -197,11 +197,13 @@ void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::OnPotentialSizeChange()
 	size_t animatedCount = animateds.size();
 	if (animatedCount == 0) return;
 
-	// Check if the first FCDAnimated points to the correct values.
-	// If it does, then they all should be fine.
+	// Check if the first and the last FCDAnimated point to the correct values: they are ordered.
+	// If they do, then they all should be fine.
 	FCDAnimated* animated = animateds.front();
-	FUAssert((size_t) animated->GetArrayElement() < values.size(), return);
-	if (animated->GetValue(0) == (void*) &values[animated->GetArrayElement()]) return;
+	FCDAnimated* last = animateds.back();
+	FUAssert((size_t) last->GetArrayElement() < values.size(), return);
+	if (animated->GetValue(0) == (void*) &values[animated->GetArrayElement()]
+		&& last->GetValue(0) == (void*) &values[last->GetArrayElement()]) return;
 
 	// Process all the animateds and set their value pointers.
 	// IMPORTANT: it is assumed that these values are FLOATS and ORDERED.
-- 
2.43.0


From 005e96426e894dfbf89997c21b3faac808e32c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 28/69] fix: animated skew parameters use the skew qualifiers

---
 FCollada/FCDocument/FCDParameterAnimatable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.cpp b/FCollada/FCDocument/FCDParameterAnimatable.cpp
index c633cdd..2610f7e 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.cpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.cpp
@@ -137,7 +137,7 @@ template <> FCDAnimated* FCDParameterAnimatableSkew::CreateAnimated()
 		&value.aroundAxis.x, &value.aroundAxis.y, &value.aroundAxis.z,
 		&value.angle
 	};
-	return new FCDAnimated((FCDObject*) GetParent(), 7, FCDAnimatedStandardQualifiers::LOOKAT, values);
+	return new FCDAnimated((FCDObject*) GetParent(), 7, FCDAnimatedStandardQualifiers::SKEW, values);
 }
 
 //
-- 
2.43.0


From 22eec61e079235c330cd50e8c4a4144f5285b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 29/69] fix: FMMatrix44::LookAtMatrix does not degenerate when
 the view and the up vector are along the negative X axis

---
 FCollada/FMath/FMMatrix44.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMMatrix44.cpp b/FCollada/FMath/FMMatrix44.cpp
index 5632bea..7f32418 100644
--- a/FCollada/FMath/FMMatrix44.cpp
+++ b/FCollada/FMath/FMMatrix44.cpp
@@ -399,7 +399,7 @@ FMMatrix44 FMMatrix44::LookAtMatrix(const FMVector3& eye, const FMVector3& targe
 	{
 		sideways = (forward ^ up).Normalize();
 	}
-	else if (!IsEquivalent(up, FMVector3::XAxis))
+	else if (!IsEquivalent(up, FMVector3::XAxis) && !IsEquivalent(up, -FMVector3::XAxis))
 	{
 		sideways = FMVector3::XAxis;
 	}
-- 
2.43.0


From 24da7f437967b4b318b8954caeb7f037c842a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 30/69] fix: FMQuaternion::ToEuler returns the right angle
 about X

---
 FCollada/FMath/FMQuaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index 75f03d2..258b611 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -163,7 +163,7 @@ FMVector3 FMQuaternion::ToEuler(FMVector3* previousAngles) const
 	{
 		// [GLaforte] Derived on 18-07-2007.
 		angles.y = asinf(siny);
-		angles.x = atan2f((x*w-y*z), 1.0f - 2.0f * (x*x+y*y));
+		angles.x = atan2f(2.0f * (x*w-y*z), 1.0f - 2.0f * (x*x+y*y));
 		angles.z = atan2f(2.0f * (z*w-x*y), 1.0f - 2.0f * (y*y+z*z));
 	}
 
-- 
2.43.0


From 3f25df7d7ec1519d14cf6c9af717665ecb312f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 31/69] fix: FMMatrix44::Recompose applies the rotations in the
 order that Decompose extracts them in

---
 FCollada/FMath/FMMatrix44.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FMath/FMMatrix44.cpp b/FCollada/FMath/FMMatrix44.cpp
index 7f32418..21784d9 100644
--- a/FCollada/FMath/FMMatrix44.cpp
+++ b/FCollada/FMath/FMMatrix44.cpp
@@ -170,8 +170,8 @@ void FMMatrix44::Decompose(FMVector3& scale, FMVector3& rotation, FMVector3& tra
 
 void FMMatrix44::Recompose(const FMVector3& scale, const FMVector3& rotation, const FMVector3& translation, float inverted)
 {
-	(*this) = FMMatrix44::TranslationMatrix(translation) * FMMatrix44::AxisRotationMatrix(FMVector3::ZAxis, rotation.z)
-		* FMMatrix44::AxisRotationMatrix(FMVector3::YAxis, rotation.y) * FMMatrix44::AxisRotationMatrix(FMVector3::XAxis, rotation.x)
+	(*this) = FMMatrix44::TranslationMatrix(translation) * FMMatrix44::AxisRotationMatrix(FMVector3::XAxis, rotation.x)
+		* FMMatrix44::AxisRotationMatrix(FMVector3::YAxis, rotation.y) * FMMatrix44::AxisRotationMatrix(FMVector3::ZAxis, rotation.z)
 		* FMMatrix44::ScaleMatrix(inverted * scale);
 }
 
-- 
2.43.0


From 0526cfe6f6645aed18ff264c4c88be54a51c5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 32/69] fix: angle-axis rotations with opposite axes and no
 angle are equivalent

---
 FCollada/FMath/FMAngleAxis.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/FCollada/FMath/FMAngleAxis.cpp b/FCollada/FMath/FMAngleAxis.cpp
index 63256fa..01b71ed 100644
--- a/FCollada/FMath/FMAngleAxis.cpp
+++ b/FCollada/FMath/FMAngleAxis.cpp
@@ -24,13 +24,7 @@ FMAngleAxis::FMAngleAxis(const FMVector3& _axis, float _angle)
 
 bool operator==(const FMAngleAxis& first, const FMAngleAxis& other)
 {
-	if (IsEquivalent(first.angle, other.angle))
-	{
-		return IsEquivalent(first.axis, other.axis);
-	}
-	else
-	{
-		return IsEquivalent(first.angle, -other.angle) && IsEquivalent(first.axis, -other.axis);
-	}
+	return (IsEquivalent(first.angle, other.angle) && IsEquivalent(first.axis, other.axis))
+		|| (IsEquivalent(first.angle, -other.angle) && IsEquivalent(first.axis, -other.axis));
 }
 
-- 
2.43.0


From 52789bfbcc1fa9fdd96d6981fe9561562fbbc00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 33/69] fix: FMQuaternion::ToEuler returns the right angle
 about X at the south pole

---
 FCollada/FMath/FMQuaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index 258b611..f99f485 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -156,7 +156,7 @@ FMVector3 FMQuaternion::ToEuler(FMVector3* previousAngles) const
 	{
 		angles.y = (float) -FMath::Pi / 2;
 
-		angles.x = -2 * atan2(x,w);
+		angles.x = 2 * atan2(x,w);
 		angles.z = 0;
 	}
 	else
-- 
2.43.0


From c079b5136f7f44339a6ecca3d61a711bdc8a2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 34/69] fix: FUBoundingBox::Include(point) never raised the
 maximum of a coordinate that also lowered the minimum

---
 FCollada/FUtils/FUBoundingBox.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingBox.cpp b/FCollada/FUtils/FUBoundingBox.cpp
index 4813579..6326ab4 100644
--- a/FCollada/FUtils/FUBoundingBox.cpp
+++ b/FCollada/FUtils/FUBoundingBox.cpp
@@ -106,11 +106,11 @@ void FUBoundingBox::Include(const FUBoundingBox& boundingBox)
 void FUBoundingBox::Include(const FMVector3& point)
 {
 	if (point.x < minimum.x) minimum.x = point.x;
-	else if (point.x > maximum.x) maximum.x = point.x;
+	if (point.x > maximum.x) maximum.x = point.x;
 	if (point.y < minimum.y) minimum.y = point.y;
-	else if (point.y > maximum.y) maximum.y = point.y;
+	if (point.y > maximum.y) maximum.y = point.y;
 	if (point.z < minimum.z) minimum.z = point.z;
-	else if (point.z > maximum.z) maximum.z = point.z;
+	if (point.z > maximum.z) maximum.z = point.z;
 }
 
 FUBoundingBox FUBoundingBox::Transform(const FMMatrix44& transform) const
-- 
2.43.0


From d971c51cd4a6577b6cc063ff489ff98332953c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 35/69] fix: FUBoundingSphere::Include(sphere) gave a sphere
 which did not contain both, for unequal or nested spheres

---
 FCollada/FUtils/FUBoundingSphere.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index ce373b0..c3eb0d9 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -130,13 +130,16 @@ void FUBoundingSphere::Include(const FMVector3& point)
 
 void FUBoundingSphere::Include(const FUBoundingSphere& boundingSphere)
 {
-	if (radius >= 0.0f)
+	if (!boundingSphere.IsValid()) return;
+	float distance = (center - boundingSphere.center).Length();
+	if (radius >= 0.0f && distance + radius > boundingSphere.radius)
 	{
-		float distance = (center - boundingSphere.center).Length();
 		if (distance + boundingSphere.radius > radius)
 		{
-			center = ((radius + distance / 2.0f) * center + (boundingSphere.radius + distance / 2.0f) * boundingSphere.center) / (radius + boundingSphere.radius + distance);
-			radius = (radius + boundingSphere.radius + distance) / 2.0f;
+			// Neither sphere contains the other one.
+			float newRadius = (radius + boundingSphere.radius + distance) / 2.0f;
+			center += (boundingSphere.center - center) * ((newRadius - radius) / distance);
+			radius = newRadius;
 		}
 	}
 	else
-- 
2.43.0


From 67dee90b018e5a3649a2505d92eef4b3b35800a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 36/69] fix: FUBoundingSphere::Overlaps gave a center outside
 of the overlap and overlapped invalid spheres

---
 FCollada/FUtils/FUBoundingSphere.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index c3eb0d9..b629e40 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -69,18 +69,22 @@ bool FUBoundingSphere::Contains(const FMVector3& point) const
 
 bool FUBoundingSphere::Overlaps(const FUBoundingSphere& boundingSphere, FMVector3* overlapCenter) const
 {
-	if (radius >= 0.0f)
+	if (radius >= 0.0f && boundingSphere.radius >= 0.0f)
 	{
-		FMVector3 centerToCenter = center - boundingSphere.center;
+		FMVector3 centerToCenter = boundingSphere.center - center;
 		float distanceSquared = centerToCenter.LengthSquared();
 		bool overlaps = distanceSquared < (radius + boundingSphere.radius) * (radius + boundingSphere.radius);
 		if (overlaps && overlapCenter != NULL)
 		{
 			float distance = sqrtf(distanceSquared);
-			float overlapDistance = (radius + boundingSphere.radius) - distance;
-			float smallerRadius = min(radius, boundingSphere.radius);
-			overlapDistance = min(2.0f * smallerRadius, overlapDistance);
-			(*overlapCenter) = center + centerToCenter / distance * (radius - overlapDistance / 2.0f);
+			(*overlapCenter) = center;
+			if (distance > 0.0f)
+			{
+				// Middle of the part of the line of centers that lies within both spheres.
+				float overlapStart = max(-radius, distance - boundingSphere.radius);
+				float overlapEnd = min(radius, distance + boundingSphere.radius);
+				(*overlapCenter) += centerToCenter / distance * ((overlapStart + overlapEnd) / 2.0f);
+			}
 		}
 		return overlaps;
 	}
-- 
2.43.0


From 2dc1ae435522bdc293d9a2d3f368c6379b827c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 37/69] fix: FUBoundingSphere::Include(box) corrupted the
 sphere when given an empty box

---
 FCollada/FUtils/FUBoundingSphere.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index b629e40..c0e06ac 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -155,6 +155,7 @@ void FUBoundingSphere::Include(const FUBoundingSphere& boundingSphere)
 
 void FUBoundingSphere::Include(const FUBoundingBox& boundingBox)
 {
+	if (!boundingBox.IsValid()) return;
 	if (radius >= 0.0f)
 	{
 		FUBOUNDINGBOX_COORDINATES(coordinates, boundingBox);
-- 
2.43.0


From 23002204c4e32a2ec3d8c286c069003569e0f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:50 +0000
Subject: [PATCH 38/69] fix: '%' in text contents was written as is and decoded
 as the start of an escape sequence

---
 FCollada/FUtils/FUXmlWriter.cpp                   | 2 +-
 FColladaPlugins/FArchiveXML/FAXEntityExport.cpp   | 2 +-
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUXmlWriter.cpp b/FCollada/FUtils/FUXmlWriter.cpp
index a8282ee..fec299a 100644
--- a/FCollada/FUtils/FUXmlWriter.cpp
+++ b/FCollada/FUtils/FUXmlWriter.cpp
@@ -38,7 +38,7 @@ static const bool xmlValidityTable[256] =
 {
 	false, false, false, false, false, false, false, false, false, false, true , false, false, true , false, false, // 0-15 [10 is \n, 13 is \r]
 	false, false, false, false, false, false, false, false, false, false, false, false, false, false, false, false, // 16-31
-	true , true , false, true , true , true , true , false, true , true , true , true , true , true , true , true , // 32-47 [32-33 is ' !', 35-38 is '#$%&', 40-47 is '()*+,-./']
+	true , true , false, true , true , false, true , false, true , true , true , true , true , true , true , true , // 32-47 [32-33 is ' !', 35-36 is '#$', 38 is '&', 40-47 is '()*+,-./']
 	true , true , true , true , true , true , true , true , true , true , true , true , false, true , false, true , // 48-63 [48-57 are numerals, 58-59 is ':;', 61 is '=', 63 is '?']
 	false, true , true , true , true , true , true , true , true , true , true , true , true , true , true , true , // 64-79 [65-79 is 'A'-'O']
 	true , true , true , true , true , true , true , true , true , true , true , true , false, true , false, true , // 80-95 [80-90 is 'P'-'Z', 91 is '[', 93 is ']', 95 is '_']
diff --git a/FColladaPlugins/FArchiveXML/FAXEntityExport.cpp b/FColladaPlugins/FArchiveXML/FAXEntityExport.cpp
index 5f6c4a5..eb17cbb 100644
--- a/FColladaPlugins/FArchiveXML/FAXEntityExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXEntityExport.cpp
@@ -122,7 +122,7 @@ xmlNode* FArchiveXML::WriteAssetContributor(FCDObject* object, xmlNode* parentNo
 			FUUri uri(assetContributor->GetSourceData());
 			fstring sourceDataUrl = uri.GetAbsoluteUri();
 			ConvertFilename(sourceDataUrl);
-			AddChild(contributorNode, DAE_SOURCEDATA_ASSET_PARAMETER, sourceDataUrl);
+			AddContentUnprocessed(AddChild(contributorNode, DAE_SOURCEDATA_ASSET_PARAMETER), TO_STRING(sourceDataUrl).c_str());
 		}
 	}
 	return contributorNode;
diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index a68ce53..6e59a4d 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -1070,7 +1070,7 @@ xmlNode* FArchiveXML::WriteImage(FCDObject* object, xmlNode* parentNode)
 	{
 		fstring url = image->GetDocument()->GetFileManager()->CleanUri(FUUri(image->GetFilename()));
 		FUXmlWriter::ConvertFilename(url);
-		AddChild(imageNode, DAE_INITFROM_ELEMENT, url);
+		AddContentUnprocessed(AddChild(imageNode, DAE_INITFROM_ELEMENT), TO_STRING(url).c_str());
 	}
 
 	if (image->GetWidth() > 0) AddAttribute(imageNode, DAE_WIDTH_ELEMENT, image->GetWidth());
-- 
2.43.0


From 6a207cd2da73a80756e501ef11d9f07707599920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 39/69] fix: a scene node instantiated before it appears in the
 document lost that parent on load

---
 FColladaPlugins/FArchiveXML/FAXSceneImport.cpp |  7 ++++++-
 FColladaPlugins/FArchiveXML/FAXStructures.h    | 12 ++++++++++++
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp    | 16 ++++++++++++++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
index ac25bdf..d5c0eec 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
@@ -156,7 +156,12 @@ bool FArchiveXML::LoadSceneNode(FCDObject* object, xmlNode* node)
 				}
 				else
 				{
-					FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_INST, child->line);
+					// The node may appear later in the document: look for it again when everything is loaded.
+					FCDSceneNodeInstanceData data;
+					data.parent = sceneNode;
+					data.nodeId = TO_STRING(url.GetFragment());
+					data.line = child->line;
+					FArchiveXML::documentLinkDataMap[sceneNode->GetDocument()].sceneNodeInstances.push_back(data);
 				}
 			}
 			else
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index 5fdc209..b09c63e 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -226,6 +226,17 @@ struct FCDGeometrySourceData
 typedef fm::map<FCDGeometrySource*, FCDGeometrySourceData> FCDGeometrySourceDataMap;
 
 
+//
+// For FCDSceneNode
+//
+struct FCDSceneNodeInstanceData
+{
+	FCDSceneNode* parent; /**< The scene node that contains the <instance_node> element. */
+	fm::string nodeId; /**< The COLLADA id of the instantiated scene node. */
+	int32 line;
+};
+typedef fm::vector<FCDSceneNodeInstanceData> FCDSceneNodeInstanceDataList;
+
 typedef fm::pvector<FCDAnimationChannel> FCDAnimationChannelList;
 
 #endif //_FAXSTRUCTURES_H_
@@ -247,6 +258,7 @@ struct FCDocumentLinkData
 	FCDSkinControllerDataMap skinControllerDataMap;
 	FCDMorphControllerDataMap morphControllerDataMap;
 	FCDGeometrySourceDataMap geometrySourceDataMap;
+	FCDSceneNodeInstanceDataList sceneNodeInstances; // The instances of scene nodes that appear later in the document.
 };
 
 typedef fm::map<const FCDocument*, FCDocumentLinkData> DocumentLinkDataMap;
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 7c09480..34d3696 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -699,6 +699,22 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 		}
 	}
 
+	// Link the scene nodes that were instantiated before they were loaded
+	FCDSceneNodeInstanceDataList& nodeInstances = FArchiveXML::documentLinkDataMap[theDocument].sceneNodeInstances;
+	for (size_t i = 0; i < nodeInstances.size(); ++i)
+	{
+		FCDSceneNode* node = theDocument->FindSceneNode(nodeInstances[i].nodeId);
+		if (node == NULL)
+		{
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_INST, nodeInstances[i].line);
+		}
+		else if (!nodeInstances[i].parent->AddChildNode(node))
+		{
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_CYCLE_DETECTED, nodeInstances[i].line);
+		}
+	}
+	nodeInstances.clear();
+
 	// Read in the <scene> element
 	if (sceneNode != NULL)
 	{
-- 
2.43.0


From 14c2a0e4d503bd536a067242e48ce77de2801ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 40/69] fix: a set of points was written with a <vcount>, which
 made its faces lost on load

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 0817dba..7825ec9 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -169,7 +169,7 @@ xmlNode* FArchiveXML::WriteGeometryPolygons(FCDObject* object, xmlNode* parentNo
 	case FCDGeometryPolygons::LINE_STRIPS: hasHoles = true; polygonNodeType = DAE_LINESTRIPS_ELEMENT; break;
 	case FCDGeometryPolygons::TRIANGLE_FANS: hasHoles = true; polygonNodeType = DAE_TRIFANS_ELEMENT; break;
 	case FCDGeometryPolygons::TRIANGLE_STRIPS: hasHoles = true; polygonNodeType = DAE_TRISTRIPS_ELEMENT; break;
-	case FCDGeometryPolygons::POINTS: polygonNodeType = DAE_POINTS_ELEMENT; break;
+	case FCDGeometryPolygons::POINTS: hasHoles = true; polygonNodeType = DAE_POINTS_ELEMENT; break;
 	default: polygonNodeType = emptyCharString; FUFail(break); break;
 	}
 	xmlNode* polygonsNode = AddChild(parentNode, polygonNodeType);
-- 
2.43.0


From cefb680d74c6a1a9cce1b5e7bdf78526f4aab57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 41/69] fix: interleaved lists of which the first is skipped
 crashed the loading of a polygons set without an input at offset zero

---
 FCollada/FUtils/FUStringConversion.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 576bec5..86767b6 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -390,7 +390,9 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedFloatList(const CH* value,
 	size_t validCount = 0;
 	if (value != NULL && *value != 0 && stride > 0)
 	{
-		size_t length = arrays[0]->size();
+		// Any of the arrays may be NULL: its values are skipped.
+		size_t length = 0;
+		for (size_t i = 0; i < stride; ++i) if (arrays[i] != NULL) { length = arrays[i]->size(); break; }
 		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
 		{
 			for (size_t i = 0; i < stride && *value != 0; ++i)
@@ -439,7 +441,9 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedUInt32List(const CH* value
 	size_t validCount = 0;
 	if (value != NULL && *value != 0 && stride > 0)
 	{
-		size_t length = arrays[0]->size();
+		// Any of the arrays may be NULL: its values are skipped.
+		size_t length = 0;
+		for (size_t i = 0; i < stride; ++i) if (arrays[i] != NULL) { length = arrays[i]->size(); break; }
 		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
 		{
 			for (size_t i = 0; i < stride && *value != 0; ++i)
-- 
2.43.0


From 6da6357d63c40e136487bea99320c697fd6d170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 42/69] fix: the VERTEX input of a polygons set was always
 loaded at offset zero, mixing up its indices with those of another input

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 79e1d5e..9f82aa0 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -316,6 +316,7 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 					FCDGeometrySource* vertexSource = geometryPolygons->GetParent()->GetVertexSource(i);
 					FCDGeometryPolygonsInput* vertexInput = geometryPolygons->FindInput(vertexSource);
 					if (vertexInput == NULL) vertexInput = geometryPolygons->AddInput(vertexSource, offset);
+					else vertexInput->SetOffset(offset); // created at offset zero, along with the polygons
 					if (idxOwners[offset] == NULL) idxOwners[offset] = vertexInput;
 					vertexInput->SetSet(set);
 				}
-- 
2.43.0


From 309b77286ba46157280fa0d89287ecf94d05dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 43/69] fix: sources of point sizes and rotations were not
 saved, and their name was written on a missing element

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 7825ec9..97b77ac 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -40,6 +40,8 @@ xmlNode* FArchiveXML::WriteGeometrySource(FCDObject* object, xmlNode* parentNode
 	case FUDaeGeometryInput::TEXBINORMAL: sourceNode = AddSourceFloat(parentNode, geometrySource->GetDaeId(), sourceData, stride, FUDaeAccessor::XYZW); break;
 	case FUDaeGeometryInput::UV: sourceNode = AddSourceFloat(parentNode, geometrySource->GetDaeId(), sourceData, stride, FUDaeAccessor::XYZW); break;
 	case FUDaeGeometryInput::COLOR: sourceNode = AddSourceFloat(parentNode, geometrySource->GetDaeId(), sourceData, stride, FUDaeAccessor::RGBA); break;
+	case FUDaeGeometryInput::POINT_SIZE:
+	case FUDaeGeometryInput::POINT_ROTATION:
 	case FUDaeGeometryInput::EXTRA: sourceNode = AddSourceFloat(parentNode, geometrySource->GetDaeId(), sourceData, stride, NULL); break;
 	case FUDaeGeometryInput::UNKNOWN: sourceNode = AddSourceFloat(parentNode, geometrySource->GetDaeId(), sourceData, stride, NULL); break;
 
-- 
2.43.0


From 8ccc6a1a5a10daeab4f6a59c8fd54f3ea9a29e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 44/69] fix: the count of a set of lines was written as that of
 its first face only, an error on load

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 97b77ac..90ec3bc 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -299,9 +299,10 @@ xmlNode* FArchiveXML::WriteGeometryPolygons(FCDObject* object, xmlNode* parentNo
 
 	// Calculate the primitive count, taking into consideration the LINES special case.
 	size_t primitiveCount = geometryPolygons->GetFaceCount();
-	if (geometryPolygons->GetPrimitiveType() == FCDGeometryPolygons::LINES && primitiveCount > 0)
+	if (geometryPolygons->GetPrimitiveType() == FCDGeometryPolygons::LINES)
 	{
-		primitiveCount = geometryPolygons->GetFaceVertexCount(0) / 2;
+		primitiveCount = 0;
+		for (size_t i = 0; i < faceCount; ++i) primitiveCount += geometryPolygons->GetFaceVertexCount(i) / 2;
 	}
 	AddAttribute(polygonsNode, DAE_COUNT_ATTRIBUTE, primitiveCount);
 
-- 
2.43.0


From 8acf1260a70c2544e40c1a621a9c248197d054fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 45/69] fix: setting the type that a spline geometry already
 has removed its splines, so that only the last one of a file was loaded

---
 FCollada/FCDocument/FCDGeometrySpline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDGeometrySpline.cpp b/FCollada/FCDocument/FCDGeometrySpline.cpp
index 54d9fdc..63bd110 100644
--- a/FCollada/FCDocument/FCDGeometrySpline.cpp
+++ b/FCollada/FCDocument/FCDGeometrySpline.cpp
@@ -285,6 +285,7 @@ FCDGeometrySpline* FCDGeometrySpline::Clone(FCDGeometrySpline* clone) const
 
 bool FCDGeometrySpline::SetType(FUDaeSplineType::Type _type)
 {
+	if (_type == GetType()) return true; // only another type clears the splines
 	while (!splines.empty()) splines.back()->Release();
 	type = _type;
 	SetDirtyFlag();
-- 
2.43.0


From 97e828b1d2324460b50aa8cd7f47e8cb3e1a1a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 46/69] fix: saved animation curves had as many STEP
 interpolations in front of their own, so that they were all loaded as STEP

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 45aeabf..d22f414 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -404,7 +404,7 @@ void FArchiveXML::WriteSourceFCDAnimationCurve(FCDAnimationCurve* animationCurve
 	// Export the data arrays.
 	xmlNode* sourceNode = AddSourceFloat(parentNode, baseId + "-input", inputs, "TIME");
 	AddSourceFloat(parentNode, baseId + "-output", outputs, parameter);
-	fm::vector<FUDaeInterpolation::Interpolation> interpolations_(interpolations.size());
+	FUDaeInterpolationList interpolations_; interpolations_.reserve(interpolations.size());
 	for (auto it = interpolations.begin(); it < interpolations.end(); ++it)
 		interpolations_.push_back(static_cast<FUDaeInterpolation::Interpolation>(*it));
 	AddSourceInterpolation(parentNode, baseId + "-interpolations", interpolations_);
@@ -606,7 +606,7 @@ void FArchiveXML::WriteSourceFCDAnimationMultiCurve(FCDAnimationMultiCurve* anim
 	// Export the data arrays
 	xmlNode* inputSourceNode = AddSourceFloat(parentNode, baseId + "-input", inputs, "TIME");
 	AddSourceFloat(parentNode, baseId + "-output", outputs, animationMultiCurve->GetDimension(), parameters);
-	fm::vector<FUDaeInterpolation::Interpolation> interpolations_(interpolations.size());
+	FUDaeInterpolationList interpolations_; interpolations_.reserve(interpolations.size());
 	for (auto it = interpolations.begin(); it < interpolations.end(); ++it)
 		interpolations_.push_back(static_cast<FUDaeInterpolation::Interpolation>(*it));
 	AddSourceInterpolation(parentNode, baseId + "-interpolations", interpolations_);
-- 
2.43.0


From 591f05b9f57ece2f80aa6a1da86c156f96f38214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 47/69] fix: curves of a value merged into one channel
 replaced, once loaded, the curve that another animation has for one of its
 other dimensions

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index d22f414..3471488 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -87,6 +87,13 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 		}
 	}
 
+	// Prevent the merging when another channel animates one of the other dimensions of the value:
+	// the merged curve would animate that dimension as well, with its default value.
+	for (size_t i = 0; i < mergingCurves.size() && mergeCurves && realCurveCount > 1 && data.animatedValue != NULL && i < data.animatedValue->GetValueCount(); ++i)
+	{
+		mergeCurves &= mergingCurves[i] != NULL || data.animatedValue->GetCurve(i) == NULL;
+	}
+
 	if (mergeCurves && realCurveCount > 1)
 	{
 		// Prepare the list of default values
-- 
2.43.0


From 678de50af5ed2e658cd61e6b55f672ed3b04ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 48/69] fix: reading the name of an animation of a clip that
 was never given one read past the names

---
 FCollada/FCDocument/FCDAnimationClip.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationClip.h b/FCollada/FCDocument/FCDAnimationClip.h
index 8910592..4d9ada8 100644
--- a/FCollada/FCDocument/FCDAnimationClip.h
+++ b/FCollada/FCDocument/FCDAnimationClip.h
@@ -117,7 +117,7 @@ public:
     /** Retrieves the name of the animation at a given index.
         @param index The index of the animation.
         @return The name of the animation. */
-	inline fm::string GetAnimationName(size_t index) const { return names[index]; }
+	inline fm::string GetAnimationName(size_t index) const { return (index < names.size()) ? names[index] : fm::string(); }
 
     /** [INTERNAL] Adds an animation instance.
         @return The empty animation instance. */
-- 
2.43.0


From 17ae6050b1d571b1e526a16868e9d0f851cc24d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 49/69] fix: the animations that a clip instantiates, and their
 names, were not saved

---
 .../FArchiveXML/FAXAnimationExport.cpp         | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 3471488..6ae6540 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -213,16 +213,28 @@ xmlNode* FArchiveXML::WriteAnimationClip(FCDObject* object, xmlNode* parentNode)
 	AddAttribute(clipNode, DAE_START_ATTRIBUTE, animationClip->GetStart());
 	AddAttribute(clipNode, DAE_END_ATTRIBUTE, animationClip->GetEnd());
 
-	// Build a list of the animations to instantiate
-	// from the list of curves for this clip
 	typedef fm::pvector<const FCDAnimation> FCDAnimationConstList;
+	FCDAnimationConstList instantiated;
+	for (size_t i = 0; i < animationClip->GetAnimationCount(); ++i)
+	{
+		const FCDAnimation* animation = animationClip->GetAnimation(i);
+		if (animation == NULL) continue;
+		instantiated.push_back(animation);
+		xmlNode* instanceNode = AddChild(clipNode, DAE_INSTANCE_ANIMATION_ELEMENT);
+		AddAttribute(instanceNode, DAE_URL_ATTRIBUTE, fm::string("#") + animation->GetDaeId());
+		fm::string animationName = animationClip->GetAnimationName(i);
+		if (!animationName.empty()) AddAttribute(instanceNode, DAE_NAME_ATTRIBUTE, animationName);
+	}
+
+	// Build a list of the other animations to instantiate
+	// from the list of curves for this clip
 	FCDAnimationConstList animations;
 	for (FCDAnimationCurveTrackList::iterator itC = animationClip->GetClipCurves().begin(); itC != animationClip->GetClipCurves().end(); ++itC)
 	{
 		const FCDAnimationChannel* channel = (*itC)->GetParent();
 		if (channel == NULL) continue;
 		const FCDAnimation* animation = channel->GetParent();
-		if (animations.find(animation) == animations.end())
+		if (animations.find(animation) == animations.end() && instantiated.find(animation) == instantiated.end())
 		{
 			animations.push_back(animation);
 		}
-- 
2.43.0


From 2987ebd5925a4e66175d9d56818e44c439c5fcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 50/69] fix: the index of a driver that is the first dimension
 of its value was written twice

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 6ae6540..9a6353a 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -487,10 +487,6 @@ xmlNode* FArchiveXML::WriteSamplerFCDAnimationCurve(FCDAnimationCurve* animation
 		{
 			builder.append('('); builder.append(driverElement); builder.append(')');
 		}
-		if (animationCurve->GetDriverIndex() == 0)
-		{
-			builder.append('('); builder.append(animationCurve->GetDriverIndex()); builder.append(')');
-		}
 		AddInput(samplerNode, builder.ToCharPtr(), DAEMAYA_DRIVER_INPUT);
 	}
 
-- 
2.43.0


From d76482254a8811d9019b1f3f9a6fc5e68d28bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 51/69] fix: saving a curve whose driver is a value without a
 curve of its own read past the end of the map of target pointers

---
 .../FArchiveXML/FAXAnimationExport.cpp        | 23 +++++++++++++++++--
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp   |  6 +++++
 FColladaPlugins/FArchiveXML/FArchiveXML.h     |  1 +
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 9a6353a..4971679 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -204,6 +204,20 @@ xmlNode* FArchiveXML::WriteAnimation(FCDObject* object, xmlNode* parentNode)
 	return animationNode;
 }
 
+void FArchiveXML::RegisterDrivers(FCDAnimation* animation)
+{
+	for (size_t i = 0; i < animation->GetChannelCount(); ++i)
+	{
+		FCDAnimationChannel* channel = animation->GetChannel(i);
+		for (size_t c = 0; c < channel->GetCurveCount(); ++c)
+		{
+			FCDAnimated* driver = channel->GetCurve(c)->GetDriverPtr();
+			if (driver != NULL) FArchiveXML::documentLinkDataMap[driver->GetDocument()].animatedData[driver];
+		}
+	}
+	for (size_t i = 0; i < animation->GetChildrenCount(); ++i) RegisterDrivers(animation->GetChild(i));
+}
+
 xmlNode* FArchiveXML::WriteAnimationClip(FCDObject* object, xmlNode* parentNode)
 {
 	FCDAnimationClip* animationClip = (FCDAnimationClip*)object;
@@ -258,7 +272,12 @@ bool FArchiveXML::WriteAnimatedValue(const FCDParameterAnimatable* value, xmlNod
 	{
 		// Find the value's animations
 		FCDAnimated* animated = const_cast<FCDAnimated*>(value->GetAnimated());
-		if (!animated->HasCurve()) return false;
+		if (!animated->HasCurve())
+		{
+			// The values that drive a curve also need a target pointer.
+			FCDAnimatedDataMap& animatedDataMap = FArchiveXML::documentLinkDataMap[animated->GetDocument()].animatedData;
+			if (animatedDataMap.find(animated) == animatedDataMap.end()) return false;
+		}
 		animated->SetArrayElement(arrayElement);
 		FArchiveXML::WriteAnimatedValue(animated, valueNode, wantedSid);
 		return true;
@@ -487,7 +506,7 @@ xmlNode* FArchiveXML::WriteSamplerFCDAnimationCurve(FCDAnimationCurve* animation
 		{
 			builder.append('('); builder.append(driverElement); builder.append(')');
 		}
-		AddInput(samplerNode, builder.ToCharPtr(), DAEMAYA_DRIVER_INPUT);
+		if (!data.pointer.empty()) AddInput(samplerNode, builder.ToCharPtr(), DAEMAYA_DRIVER_INPUT);
 	}
 
 	return samplerNode;
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 34d3696..b0f28f7 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -840,6 +840,12 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 		if (!theDocument->GetAnimationLibrary()->IsEmpty())
 		{
 			animationLibraryNode = AddChild(colladaNode, DAE_LIBRARY_ANIMATION_ELEMENT);
+
+			// The target pointers of the drivers are needed by the curves, even if the drivers are not animated.
+			for (size_t i = 0; i < theDocument->GetAnimationLibrary()->GetEntityCount(); ++i)
+			{
+				FArchiveXML::RegisterDrivers(theDocument->GetAnimationLibrary()->GetEntity(i));
+			}
 		}
 
 		// clean up the sub ids
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.h b/FColladaPlugins/FArchiveXML/FArchiveXML.h
index fe667e7..7737228 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.h
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.h
@@ -503,6 +503,7 @@ public:
 
 	static bool WriteAnimatedValue(const FCDParameterAnimatable* value, xmlNode* valueNode, const char* wantedSid, int32 arrayElement = -1);
 	static void WriteAnimatedValue(const FCDAnimated* _animated, xmlNode* valueNode, const char* wantedSid);
+	static void RegisterDrivers(FCDAnimation* animation);
 
 	static void WriteSourceFCDAnimationCurve(FCDAnimationCurve* animationCurve, xmlNode* parentNode, const fm::string& baseId);
 	static xmlNode* WriteSamplerFCDAnimationCurve(FCDAnimationCurve* animationCurve, xmlNode* parentNode, const fm::string& baseId);
-- 
2.43.0


From e9de9440679043a167c31ad3fd18fe6643ccc112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 52/69] fix: a missing driver was reported for the curves that
 have found theirs, and for none of the others

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 337d22f..abb4307 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -98,7 +98,7 @@ bool FArchiveXML::LinkAnimation(FCDAnimation* animation)
 		FUAssert(it != FArchiveXML::documentLinkDataMap[channel->GetDocument()].animationChannelData.end(), continue);
 		FCDAnimationChannelData& data = it->second;
 
-		if (!data.driverPointer.empty() && channel->GetCurveCount() > 0 && channel->GetCurve(0)->HasDriver())
+		if (!data.driverPointer.empty() && channel->GetCurveCount() > 0 && !channel->GetCurve(0)->HasDriver())
 		{
 			status &= FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_ANIM_CURVE_DRIVER_MISSING);
 		}
-- 
2.43.0


From 52fd53ff9f13fb0aaaa88b2f04c173dac5a74ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 53/69] fix: the extra data of an animation that has channels
 was not saved any more once loaded

---
 FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index 4cd4f3a..1aac840 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -39,8 +39,8 @@ bool FArchiveXML::LoadAnimationChannel(FCDObject* object, xmlNode* channelNode)
 #ifdef DONT_DEFINE_THIS
 	FCDAnimation* anim = animationChannel->GetParent();
 	FCDExtra* extra = anim->GetExtra();
-	extra->SetTransientFlag(); // Dont save this, its wasted whatever it is.
 	FCDEType* type = extra->AddType("AnimTargets");
+	type->SetTransientFlag(); // Dont save this, its wasted whatever it is.
 	FCDETechnique* teq = type->AddTechnique("TEMP");
 	teq->AddChildNode("pointer")->SetContent(TO_FSTRING(data.targetPointer));
 	teq->AddChildNode("pointer")->SetContent(TO_FSTRING(data.targetQualifier));
-- 
2.43.0


From b7ebbf7696929593c75b2d6a68e856fa911888fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:27 +0000
Subject: [PATCH 54/69] fix: the driver of a curve was lost when none of the
 dimensions of its value has a curve, as the value was saved without a target
 pointer

---
 FCollada/FCDocument/FCDParameterAnimatable.h       | 4 ++++
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 2 +-
 FColladaPlugins/FArchiveXML/FAXSceneExport.cpp     | 5 +++--
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.h b/FCollada/FCDocument/FCDParameterAnimatable.h
index 600b08d..25f4f87 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.h
+++ b/FCollada/FCDocument/FCDParameterAnimatable.h
@@ -62,6 +62,10 @@ public:
 		@return Whether this animatable parameter is animated. */
 	bool IsAnimated() const;
 
+	/** Retrieves whether this animatable parameter already has an animated value, even one without any curve.
+		@return Whether this animatable parameter has an animated value. */
+	bool HasAnimated() const { return animated != NULL; }
+
 	/** Copy operator.
 		Note: the animation is not copied, right now.
 		@param parameter The other parameter.
diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 4971679..14b593a 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -268,7 +268,7 @@ xmlNode* FArchiveXML::WriteAnimationClip(FCDObject* object, xmlNode* parentNode)
 // Writes out a value's animations, if any, to the animation library of a COLLADA XML document.
 bool FArchiveXML::WriteAnimatedValue(const FCDParameterAnimatable* value, xmlNode* valueNode, const char* wantedSid, int32 arrayElement)
 {
-	if (value->IsAnimated() && valueNode != NULL)
+	if (value->HasAnimated() && valueNode != NULL)
 	{
 		// Find the value's animations
 		FCDAnimated* animated = const_cast<FCDAnimated*>(value->GetAnimated());
diff --git a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
index 5b26d69..d71b3e1 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
@@ -365,8 +365,9 @@ void FArchiveXML::WriteTransformBase(FCDTransform* transform, xmlNode* transform
 		wantedSid = _sid.c_str();
 	}
 
-	// Process the animation of the transform.
-	if (transform->IsAnimated())
+	// Process the animation of the transform, which may also drive the animation of other values.
+	FCDAnimatedDataMap& animatedDataMap = FArchiveXML::documentLinkDataMap[transform->GetDocument()].animatedData;
+	if (transform->IsAnimated() || animatedDataMap.find(transform->GetAnimated()) != animatedDataMap.end())
 	{
 		FArchiveXML::WriteAnimatedValue(transform->GetAnimated(), transformNode, wantedSid);
 	}
-- 
2.43.0


From c3ac6dbefc3370bff465d5767e910c5b3b70e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 55/69] fix: the emission textures of a profile that has an
 emission factor were not saved

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 6e59a4d..036fb92 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -966,7 +966,7 @@ xmlNode* FArchiveXML::WriteEffectStandard(FCDObject* object, xmlNode* parentNode
 	}
 	if (effectStandard->IsEmissionFactor())
 	{
-		FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAEMAX_EMISSIONLEVEL_MATERIAL_PARAMETER, effectStandard->GetEmissionFactorParam(), FUDaeTextureChannel::UNKNOWN);
+		FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAEMAX_EMISSIONLEVEL_MATERIAL_PARAMETER, effectStandard->GetEmissionFactorParam(), FUDaeTextureChannel::EMISSION);
 	}
 	if (effectStandard->GetTextureCount(FUDaeTextureChannel::DISPLACEMENT) > 0)
 	{
-- 
2.43.0


From c8c08776a2a5fed3e644347a15a3afba587d1366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 56/69] fix: specular level textures were not saved when the
 specular factor is one

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 036fb92..2810933 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -934,7 +934,7 @@ xmlNode* FArchiveXML::WriteEffectStandard(FCDObject* object, xmlNode* parentNode
 			{
 				FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAE_SHININESS_MATERIAL_PARAMETER, effectStandard->GetShininessParam(), FUDaeTextureChannel::SHININESS);
 			}
-			if (effectStandard->GetSpecularFactor() != 1.0f)
+			if (effectStandard->GetSpecularFactor() != 1.0f || effectStandard->GetTextureCount(FUDaeTextureChannel::SPECULAR_LEVEL) > 0)
 			{
 				FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAEMAX_SPECLEVEL_MATERIAL_PARAMETER, effectStandard->GetSpecularFactorParam(), FUDaeTextureChannel::SPECULAR_LEVEL);
 			}
-- 
2.43.0


From ad6837b4e6debdd2591259a6a4fb682ecb1e39ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 57/69] fix: saving a texture that has no sampler added a
 sampler parameter to its profile

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 2810933..0480af2 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -1051,13 +1051,13 @@ xmlNode* FArchiveXML::WriteEffect(FCDObject* object, xmlNode* parentNode)
 
 xmlNode* FArchiveXML::WriteTexture(FCDObject* object, xmlNode* parentNode)
 {
-	FCDTexture* texture = (FCDTexture*)object;
+	const FCDTexture* texture = (const FCDTexture*)object; // constant: accessing the sampler must not create one
 
 	// Create the <texture> element
 	xmlNode* textureNode = AddChild(parentNode, DAE_TEXTURE_ELEMENT);
 	AddAttribute(textureNode, DAE_FXSTD_TEXTURE_ATTRIBUTE, (texture->GetSampler() != NULL) ? texture->GetSampler()->GetReference() : "");
 	AddAttribute(textureNode, DAE_FXSTD_TEXTURESET_ATTRIBUTE, (texture->GetSet() != NULL) ? texture->GetSet()->GetSemantic() : "");
-	FArchiveXML::LetWriteObject(texture->GetExtra(), textureNode);
+	FArchiveXML::LetWriteObject(const_cast<FCDExtra*>(texture->GetExtra()), textureNode);
 	return textureNode;
 }
 
-- 
2.43.0


From 859aa1c990369dd43d40b62c8c632715f77a0a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 58/69] fix: the linear texture filter was saved as UNKNOWN

---
 FCollada/FUtils/FUDaeEnum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUDaeEnum.cpp b/FCollada/FUtils/FUDaeEnum.cpp
index 49fd60a..b423991 100644
--- a/FCollada/FUtils/FUDaeEnum.cpp
+++ b/FCollada/FUtils/FUDaeEnum.cpp
@@ -163,6 +163,7 @@ namespace FUDaeTextureFilterFunction
 		{
 		case NONE: return DAE_TEXTURE_FILTER_NONE;
 		case NEAREST: return DAE_TEXTURE_FILTER_NEAREST;
+		case LINEAR: return DAE_TEXTURE_FILTER_LINEAR;
 		case NEAREST_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_NEAR_MIP_NEAR;
 		case LINEAR_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_LIN_MIP_NEAR;
 		case NEAREST_MIPMAP_LINEAR: return DAE_TEXTURE_FILTER_NEAR_MIP_LIN;
-- 
2.43.0


From 4952f41be1468e38b184418553847a4fcebbdf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 59/69] fix: the conversion of an empty string to a vector
 returned uninitialized memory: the size of the surfaces saved without one

---
 FCollada/FUtils/FUStringConversion.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 86767b6..53ca3a3 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -214,7 +214,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToDateTime(const CH* value, FUDateTime&
 template<class CH>
 FCOLLADA_EXPORT FMVector2 FUStringConversion::ToVector2(const CH** value)
 {
-	FMVector2 p;
+	FMVector2 p(0.0f, 0.0f);
 	if (value != NULL && *value != NULL && **value != 0)
 	{
 		p.x = ToFloat(value);
@@ -226,7 +226,7 @@ FCOLLADA_EXPORT FMVector2 FUStringConversion::ToVector2(const CH** value)
 template<class CH>
 FCOLLADA_EXPORT FMVector3 FUStringConversion::ToVector3(const CH** value)
 {
-	FMVector3 p;
+	FMVector3 p(0.0f, 0.0f, 0.0f);
 	if (value != NULL && *value != NULL && **value != 0)
 	{
 		p.x = ToFloat(value);
@@ -239,7 +239,7 @@ FCOLLADA_EXPORT FMVector3 FUStringConversion::ToVector3(const CH** value)
 template<class CH>
 FCOLLADA_EXPORT FMVector4 FUStringConversion::ToVector4(const CH** value)
 {
-	FMVector4 p;
+	FMVector4 p(0.0f, 0.0f, 0.0f, 0.0f);
 	if (value != NULL && *value != NULL && **value != 0)
 	{
 		p.x = ToFloat(value);
-- 
2.43.0


From b983377bb149bb916bb9c808fceb5afbc2747b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 60/69] fix: a surface without a viewport ratio was loaded with
 the ratio 0 instead of the default

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 84a26c5..3448641 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -658,7 +658,7 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 	xmlNode* sizeNode = FindChildByType(surfaceNode, DAE_SIZE_ELEMENT);
 	effectParameterSurface->SetSize(FUStringConversion::ToVector3(ReadNodeContentDirect(sizeNode)));
 	xmlNode* viewportRatioNode = FindChildByType(surfaceNode, DAE_VIEWPORT_RATIO);
-	effectParameterSurface->SetViewportRatio(FUStringConversion::ToFloat(ReadNodeContentDirect(viewportRatioNode)));
+	if (viewportRatioNode != NULL) effectParameterSurface->SetViewportRatio(FUStringConversion::ToFloat(ReadNodeContentDirect(viewportRatioNode)));
 	xmlNode* mipLevelsNode = FindChildByType(surfaceNode, DAE_MIP_LEVELS);
 	effectParameterSurface->SetMipLevelCount((uint16) FUStringConversion::ToInt32(ReadNodeContentDirect(mipLevelsNode)));
 	xmlNode* mipmapGenerateNode = FindChildByType(surfaceNode, DAE_MIPMAP_GENERATE);
-- 
2.43.0


From b7080a9ee2107da20fe7c868825efee12ff6d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 61/69] fix: the request of a surface for the generation of its
 mip-maps was not saved

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 0480af2..0d7e687 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -476,6 +476,11 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 		AddContent(mipmapLevelsNode, FUStringConversion::ToString(effectParameterSurface->GetMipLevelCount()));
 	}
 
+	if (effectParameterSurface->IsGenerateMipMaps())
+	{
+		AddChild(surfaceNode, DAE_MIPMAP_GENERATE, true);
+	}
+
 	return parameterNode;
 }
 
-- 
2.43.0


From 255ee80e6c88a992b5e63e78d198e8e1f37f63b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:52 +0000
Subject: [PATCH 62/69] fix: saving a surface that is initialized from images
 but has none dereferenced NULL

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 0d7e687..b12e52b 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -325,7 +325,7 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 				size_t sizeSlices = in->slice.size();
 				size_t sizeFaces = in->face.size();
 
-				if (size == in->face.size() || size == in->mip.size() || size == in->slice.size())
+				if (size == 0 || size == in->face.size() || size == in->mip.size() || size == in->slice.size())
 				{
 					//This is possibility 2
 					for (uint32 i=0; i<size; i++)
@@ -369,12 +369,12 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 				if (in->volumeType == FCDEffectParameterSurfaceInitVolume::ALL)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				else if (in->volumeType == FCDEffectParameterSurfaceInitVolume::PRIMARY)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_PRIMARY_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				break;
 			}
@@ -385,13 +385,13 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 				if (in->cubeType == FCDEffectParameterSurfaceInitCube::ALL)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				else if (in->cubeType == FCDEffectParameterSurfaceInitCube::PRIMARY)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_PRIMARY_ELEMENT);
 					AddChild(typeNode, DAE_ORDER_ELEMENT); //FIXME: complete when the spec gets more info.
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				if (in->cubeType == FCDEffectParameterSurfaceInitCube::FACE)
 				{
@@ -407,7 +407,7 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 			{
 				xmlNode* childNode = AddChild(surfaceNode, DAE_INITPLANAR_ELEMENT);
 				xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-				AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+				if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				break;
 			}
 			default:
-- 
2.43.0


From 72233a5fb10ddd294e2704d0c11b5a6ab70cecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:28 +0000
Subject: [PATCH 63/69] fix: a surface with an init_from element for each of
 its images lost all of them but the first on loading, and their mip level,
 slice and face

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 3448641..c9d3097 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -468,16 +468,16 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 			effectParameterSurface->SetInitMethod(new FCDEffectParameterSurfaceInitFrom());
 
 		FCDEffectParameterSurfaceInitFrom* ptrInit = (FCDEffectParameterSurfaceInitFrom*)effectParameterSurface->GetInitMethod();
-		//StringList names;
-		FUStringConversion::ToStringList(ReadNodeContentDirect(*it), effectParameterSurface->GetNames());
+		StringList names;
+		FUStringConversion::ToStringList(ReadNodeContentDirect(*it), names);
+		for (StringList::iterator itN = names.begin(); itN != names.end(); ++itN) effectParameterSurface->GetNames().push_back(*itN);
 
-		if (effectParameterSurface->GetNames().size() == 0 || effectParameterSurface->GetNames()[0].empty())
+		if (names.empty())
 		{
-			effectParameterSurface->GetNames().clear();
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_EMPTY_INIT_FROM, surfaceNode->line);
 		}
 
-		if (effectParameterSurface->GetNames().size() == 1) //might be 1.4.1, so allow the attributes mip, slice, face
+		if (names.size() == 1) //might be 1.4.1, so allow the attributes mip, slice, face
 		{
 			if (HasNodeProperty(*it, DAE_MIP_ATTRIBUTE))
 			{
-- 
2.43.0


From 6a33231499e1d76acab991b6d42e1e30970da620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 64/69] fix: reading a list of strings into a list that is not
 empty appended the words to its strings

---
 FCollada/FUtils/FUStringConversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.cpp b/FCollada/FUtils/FUStringConversion.cpp
index 0613f0e..64bcb4a 100644
--- a/FCollada/FUtils/FUStringConversion.cpp
+++ b/FCollada/FUtils/FUStringConversion.cpp
@@ -117,7 +117,7 @@ void FUStringConversion::ToFStringList(const fstring& value, FStringList& array)
 		// Find next white space
 		while ((c = *s) != 0 && c != ' ' && c != '\t' && c != '\r' && c != '\n') { ++s; }
 
-		if (index < array.size()) array[index++].append(word, s - word);
+		if (index < array.size()) array[index++] = fstring(word, s - word);
 		else { array.push_back(fstring(word, s - word)); ++index; }
 
 		// Skip all white spaces
@@ -140,7 +140,7 @@ void FUStringConversion::ToStringList(const char* s, StringList& array)
 		// Find next white space
 		while ((c = *s) != 0 && c != ' ' && c != '\t' && c != '\r' && c != '\n') { ++s; }
 
-		if (index < array.size()) array[index++].append(word, s - word);
+		if (index < array.size()) array[index++] = fm::string(word, s - word);
 		else { array.push_back(fm::string(word, s - word)); ++index; }
 
 		// Skip all white spaces
-- 
2.43.0


From 5d7f6badbc1bf46427f0e610de4b0112ae3d4e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 65/69] fix: a reference set to no entity was resolved again
 from the id of its last entity

---
 FCollada/FCDocument/FCDEntityReference.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDEntityReference.cpp b/FCollada/FCDocument/FCDEntityReference.cpp
index 3582ad2..cd3d25b 100644
--- a/FCollada/FCDocument/FCDEntityReference.cpp
+++ b/FCollada/FCDocument/FCDEntityReference.cpp
@@ -102,6 +102,7 @@ void FCDEntityReference::SetEntity(FCDEntity* _entity)
 	}
 	else
 	{
+		entityId.clear();
 		SetEntityDocument(NULL);
 	}
 
-- 
2.43.0


From 5dffb0a13e24ec6338c6ca9858c74b11a1a52b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 66/69] fix: changing the image of a texture took the image
 away from the other textures of its profile that had the same image

---
 FCollada/FCDocument/FCDTexture.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDTexture.cpp b/FCollada/FCDocument/FCDTexture.cpp
index 7e13144..34b7b52 100644
--- a/FCollada/FCDocument/FCDTexture.cpp
+++ b/FCollada/FCDocument/FCDTexture.cpp
@@ -75,7 +75,21 @@ const FCDImage* FCDTexture::GetImage() const
 void FCDTexture::SetImage(FCDImage* image)
 {
 	// TODO: No parameter re-use for now.
-	SAFE_RELEASE(sampler);
+	// The sampler may be shared with the other textures of the profile that have the same image.
+	bool isShared = false;
+	if (sampler != NULL && parent != NULL)
+	{
+		for (uint32 bucket = 0; bucket < FUDaeTextureChannel::COUNT; ++bucket)
+		{
+			for (size_t i = 0; i < parent->GetTextureCount(bucket); ++i)
+			{
+				const FCDTexture* texture = parent->GetTexture(bucket, i);
+				isShared |= texture != this && texture->GetSampler() == sampler;
+			}
+		}
+	}
+	if (isShared) sampler = NULL;
+	else SAFE_RELEASE(sampler);
 	if (image != NULL && parent != NULL)
 	{
 		// Look for a surface with the expected sid.
-- 
2.43.0


From 82aef657b99601a262b9d18bc0915dc58e61d25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:37 +0000
Subject: [PATCH 67/69] fix: setting the geometry of a morph target to a
 geometry that is refused, or to the one that it has, released the old one and
 used it afterwards

---
 FCollada/FCDocument/FCDMorphController.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/FCollada/FCDocument/FCDMorphController.cpp b/FCollada/FCDocument/FCDMorphController.cpp
index 9077f41..bc27577 100644
--- a/FCollada/FCDocument/FCDMorphController.cpp
+++ b/FCollada/FCDocument/FCDMorphController.cpp
@@ -186,16 +186,16 @@ FCDMorphTarget::~FCDMorphTarget()
 
 void FCDMorphTarget::SetGeometry(FCDGeometry* _geometry)
 {
-	// Let go of the old geometry
-	FCDGeometry* oldGeometry = geometry;
-	if (oldGeometry != NULL && oldGeometry->GetTrackerCount() == 1)
-	{
-		SAFE_RELEASE(geometry);
-	}
-
 	// Check if this geometry is similar to the controller base target
 	if (GetParent()->GetBaseTarget() == NULL || GetParent()->IsSimilar(_geometry))
 	{
+		// Let go of the old geometry
+		FCDGeometry* oldGeometry = geometry;
+		if (oldGeometry != NULL && oldGeometry != _geometry && oldGeometry->GetTrackerCount() == 1)
+		{
+			SAFE_RELEASE(geometry);
+		}
+
 		geometry = _geometry;
 	}
 	SetNewChildFlag();
-- 
2.43.0


From ca73379dbac0283cbad65d8c895edaf1de0edd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 68/69] fix: a morph based on a controller was loaded without
 its base and without its targets

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index abb4307..282e37c 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -548,7 +548,7 @@ bool FArchiveXML::LinkMorphController(FCDMorphController* morphController)
 	{
 		fm::string targetId = SkipPound(data.targetId);
 		FCDEntity* baseTarget = morphController->GetDocument()->FindGeometry(targetId);
-		if (baseTarget == NULL) baseTarget = morphController->GetDocument()->FindController(data.targetId);
+		if (baseTarget == NULL) baseTarget = morphController->GetDocument()->FindController(targetId);
 		if (baseTarget == NULL)
 		{
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_UNKNOWN_MC_BASE_TARGET_MISSING, 0);
-- 
2.43.0


From ca95bdcec1802ae933d6868fdb67ebbc6ba9e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:30 +0000
Subject: [PATCH 69/69] fix: a morph based on a morph that comes after it in
 the document was loaded without its base and its targets

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 282e37c..ec659c6 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -547,6 +547,7 @@ bool FArchiveXML::LinkMorphController(FCDMorphController* morphController)
 	if (morphController->GetBaseTarget() == NULL)
 	{
 		fm::string targetId = SkipPound(data.targetId);
+		data.targetId.clear();
 		FCDEntity* baseTarget = morphController->GetDocument()->FindGeometry(targetId);
 		if (baseTarget == NULL) baseTarget = morphController->GetDocument()->FindController(targetId);
 		if (baseTarget == NULL)
@@ -555,9 +556,9 @@ bool FArchiveXML::LinkMorphController(FCDMorphController* morphController)
 			return false;
 		}
 
+		// A controller is a valid base only once it is linked to its own base.
+		if (baseTarget->GetType() == FCDEntity::CONTROLLER) FArchiveXML::LinkController((FCDController*) baseTarget);
 		morphController->SetBaseTarget(baseTarget);
-
-		data.targetId.clear();
 	}
 	return true;
 }
-- 
2.43.0

