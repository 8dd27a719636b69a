From 8ca39351402dab42ee136902aa6421629e9cd988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 01/11] fix: give every anchored node its own alias id, also
 when an anchor name is redefined

---
 src/loader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 7c7c7b6..27dfc51 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -88,7 +88,7 @@ impl<'input> Loader<'input> {
                 },
                 YamlEvent::Scalar(mut scalar) => {
                     if let Some(anchor) = scalar.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -96,7 +96,7 @@ impl<'input> Loader<'input> {
                 }
                 YamlEvent::SequenceStart(mut sequence_start) => {
                     if let Some(anchor) = sequence_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
@@ -105,7 +105,7 @@ impl<'input> Loader<'input> {
                 YamlEvent::SequenceEnd => Event::SequenceEnd,
                 YamlEvent::MappingStart(mut mapping_start) => {
                     if let Some(anchor) = mapping_start.anchor.take() {
-                        let id = anchors.len();
+                        let id = document.aliases.len();
                         anchors.insert(anchor, id);
                         document.aliases.insert(id, document.events.len());
                     }
-- 
2.43.0


From cfa9283d08e4c5572ce9b95a943397c8e768f70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 02/11] fix: open the enclosing one-entry mapping before a key
 that is itself a mapping or variant

---
 src/ser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index 23c761b..f77f5cf 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -416,6 +416,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         value.serialize(&mut *self)
     }
@@ -460,6 +461,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_sequence_start()?;
         Ok(self)
@@ -471,6 +473,7 @@ where
                 self.emit_mapping_start()?;
                 State::CheckForDuplicateTag
             } else {
+                self.flush_mapping_start()?;
                 State::CheckForTag
             };
         } else {
@@ -494,6 +497,7 @@ where
         if let State::FoundTag(_) = self.state {
             return Err(error::new(ErrorImpl::SerializeNestedEnum));
         }
+        self.flush_mapping_start()?;
         self.state = State::FoundTag(variant.to_owned());
         self.emit_mapping_start()?;
         Ok(self)
-- 
2.43.0


From 962234252ed1aa41dfffced41e66961072f4c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:31 +0000
Subject: [PATCH 03/11] fix: order mappings used as mapping keys independently
 of their insertion order

---
 src/mapping.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mapping.rs b/src/mapping.rs
index 667cd4b..0aa21df 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -428,6 +428,11 @@ impl PartialOrd for Mapping {
                 (_, Value::Sequence(_)) => Ordering::Greater,
 
                 (Value::Mapping(a), Value::Mapping(b)) => {
+                    // Equal mappings may hold their entries in different order.
+                    let mut a = Vec::from_iter(a);
+                    let mut b = Vec::from_iter(b);
+                    a.sort_by(|(ak, _), (bk, _)| total_cmp(ak, bk));
+                    b.sort_by(|(ak, _), (bk, _)| total_cmp(ak, bk));
                     iter_cmp_by(a, b, |(ak, av), (bk, bv)| {
                         total_cmp(ak, bk).then_with(|| total_cmp(av, bv))
                     })
-- 
2.43.0


From e9ff508067f859c25e1cdec5353b83e71b0d6d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 04/11] fix: resolve the merge keys of the mappings a merge key
 refers to

---
 src/value/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 27a170b..bf34a19 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -629,7 +629,12 @@ impl Value {
         while let Some(node) = stack.pop() {
             match node {
                 Value::Mapping(mapping) => {
-                    match mapping.remove("<<") {
+                    let mut merge = mapping.remove("<<");
+                    if let Some(merge) = &mut merge {
+                        // What is merged may itself have merge keys.
+                        merge.apply_merge()?;
+                    }
+                    match merge {
                         Some(Value::Mapping(merge)) => {
                             for (k, v) in merge {
                                 mapping.entry(k).or_insert(v);
-- 
2.43.0


From 5b07bd3e26046e2ae15c1c17421508522ed10787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 05/11] fix: keep the tag name's own leading '!' in to_value

---
 src/value/ser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/value/ser.rs b/src/value/ser.rs
index 50b08d6..12ecd3a 100644
--- a/src/value/ser.rs
+++ b/src/value/ser.rs
@@ -753,7 +753,8 @@ impl ser::SerializeMap for SerializeMap {
                 let mut mapping = Mapping::new();
                 *self = match key {
                     MaybeTag::Tag(string) => SerializeMap::Tagged(TaggedValue {
-                        tag: Tag::new(string),
+                        // The '!' that Tag's Display puts first is already gone.
+                        tag: Tag::new(format!("!{}", string)),
                         value: to_value(value)?,
                     }),
                     MaybeTag::NotTag(key) => {
-- 
2.43.0


From ad728f7a20b07117d24f10a736999c5656dccd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 06/11] fix: keep the leading '!' of a mapping key displayed in
 several pieces

---
 src/value/tagged.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/value/tagged.rs b/src/value/tagged.rs
index baf6a0a..636c6a6 100644
--- a/src/value/tagged.rs
+++ b/src/value/tagged.rs
@@ -451,9 +451,8 @@ where
                     *self = CheckForTag::Tag(s.to_owned());
                 }
                 CheckForTag::Tag(string) => {
-                    let mut string = mem::take(string);
-                    string.push_str(s);
-                    *self = CheckForTag::NotTag(string);
+                    let string = mem::take(string);
+                    *self = CheckForTag::NotTag(format!("!{}{}", string, s));
                 }
                 CheckForTag::NotTag(string) => {
                     string.push_str(s);
-- 
2.43.0


From f54a0e8e8a30c0616da57414fd946610e85ebc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 07/11] fix: flush the underlying writer in Serializer::flush

---
 src/libyaml/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libyaml/emitter.rs b/src/libyaml/emitter.rs
index 686f06e..b2a6349 100644
--- a/src/libyaml/emitter.rs
+++ b/src/libyaml/emitter.rs
@@ -176,8 +176,8 @@ impl<'a> Emitter<'a> {
             if sys::yaml_emitter_flush(emitter).fail {
                 return Err(self.error());
             }
+            io::Write::flush(&mut *(*self.pin.ptr).write).map_err(Error::Io)
         }
-        Ok(())
     }
 
     pub fn into_inner(self) -> Box<dyn io::Write + 'a> {
-- 
2.43.0


From 42ba4b36bb90de5cc23e399166b6dc581fc548ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 08/11] fix: end the stream after a parse error or unknown
 anchor

---
 src/loader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 27dfc51..54ba09a 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -60,6 +60,7 @@ impl<'input> Loader<'input> {
             let (event, mark) = match parser.next() {
                 Ok((event, mark)) => (event, mark),
                 Err(err) => {
+                    self.parser = None;
                     document.error = Some(Error::from(err).shared());
                     return Some(document);
                 }
@@ -82,6 +83,7 @@ impl<'input> Loader<'input> {
                 YamlEvent::Alias(alias) => match anchors.get(&alias) {
                     Some(id) => Event::Alias(*id),
                     None => {
+                        self.parser = None;
                         document.error = Some(error::new(ErrorImpl::UnknownAnchor(mark)).shared());
                         return Some(document);
                     }
-- 
2.43.0


From a93d6c444eeb6ca31ff3099e1b98440d858dc201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 09/11] fix: read tagged values through singleton_map_recursive

Its visitor had no visit_enum, so a Value holding a tag, which it
serializes unchanged, was refused when read back.
---
 src/with.rs | 63 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/src/with.rs b/src/with.rs
index d0bdc7c..79395d9 100644
--- a/src/with.rs
+++ b/src/with.rs
@@ -1868,6 +1868,69 @@ pub mod singleton_map_recursive {
             self.delegate
                 .visit_map(SingletonMapRecursive { delegate: map })
         }
+
+        fn visit_enum<A>(self, data: A) -> Result<Self::Value, A::Error>
+        where
+            A: EnumAccess<'de>,
+        {
+            self.delegate
+                .visit_enum(SingletonMapRecursive { delegate: data })
+        }
+    }
+
+    impl<'de, A> EnumAccess<'de> for SingletonMapRecursive<A>
+    where
+        A: EnumAccess<'de>,
+    {
+        type Error = A::Error;
+        type Variant = SingletonMapRecursive<A::Variant>;
+
+        fn variant_seed<V>(self, seed: V) -> Result<(V::Value, Self::Variant), Self::Error>
+        where
+            V: DeserializeSeed<'de>,
+        {
+            let (value, delegate) = self.delegate.variant_seed(seed)?;
+            Ok((value, SingletonMapRecursive { delegate }))
+        }
+    }
+
+    impl<'de, A> VariantAccess<'de> for SingletonMapRecursive<A>
+    where
+        A: VariantAccess<'de>,
+    {
+        type Error = A::Error;
+
+        fn unit_variant(self) -> Result<(), Self::Error> {
+            self.delegate.unit_variant()
+        }
+
+        fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value, Self::Error>
+        where
+            T: DeserializeSeed<'de>,
+        {
+            self.delegate
+                .newtype_variant_seed(SingletonMapRecursive { delegate: seed })
+        }
+
+        fn tuple_variant<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
+        where
+            V: Visitor<'de>,
+        {
+            self.delegate
+                .tuple_variant(len, SingletonMapRecursive { delegate: visitor })
+        }
+
+        fn struct_variant<V>(
+            self,
+            fields: &'static [&'static str],
+            visitor: V,
+        ) -> Result<V::Value, Self::Error>
+        where
+            V: Visitor<'de>,
+        {
+            self.delegate
+                .struct_variant(fields, SingletonMapRecursive { delegate: visitor })
+        }
     }
 
     impl<'de, T> DeserializeSeed<'de> for SingletonMapRecursive<T>
-- 
2.43.0


From d056c688cebc11cce0126bf6a091a8fb36863ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 10/11] fix: begin a map announced with one entry and given
 none only once

---
 src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index f77f5cf..807bf28 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -641,7 +641,7 @@ where
 
     fn end(self) -> Result<()> {
         if let State::CheckForTag = self.state {
-            self.emit_mapping_start()?;
+            self.flush_mapping_start()?;
         }
         if !matches!(self.state, State::AlreadyTagged) {
             self.emit_mapping_end()?;
-- 
2.43.0


From 858e9f6114c4d1d8ed0de318ee964b470151159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 11/11] fix: refuse a scalar whose length does not fit
 libyaml's i32

Emitter::emit passed scalar.value.len() as i32 to libyaml. A string of
2^32 + k bytes was silently written as its first k bytes, and one of 2^31
to 2^32 bytes made libyaml look for a terminating NUL beyond the string.
---
 src/libyaml/emitter.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libyaml/emitter.rs b/src/libyaml/emitter.rs
index b2a6349..54f0d4a 100644
--- a/src/libyaml/emitter.rs
+++ b/src/libyaml/emitter.rs
@@ -113,7 +113,16 @@ impl<'a> Emitter<'a> {
                         tag.as_ptr()
                     });
                     let value = scalar.value.as_ptr();
-                    let length = scalar.value.len() as i32;
+                    let length = match i32::try_from(scalar.value.len()) {
+                        // libyaml allocates length + 1 bytes
+                        Ok(length) if length < i32::MAX => length,
+                        _ => {
+                            return Err(Error::Io(io::Error::new(
+                                io::ErrorKind::InvalidInput,
+                                "scalar is too long for libyaml",
+                            )));
+                        }
+                    };
                     let plain_implicit = tag.is_null();
                     let quoted_implicit = tag.is_null();
                     let style = match scalar.style {
-- 
2.43.0

