From c3bae4a647a66f5c4309d10d89ced4c433a1cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 01/39] fix: report the genuine error of a failing child model

The error of a child model was stored by its goroutine without
synchronisation, and was replaced by the cancellation that it caused in
its siblings or, in its own goroutine, by a concurrent one.
---
 read.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/read.go b/read.go
index 9a474e0..60a488b 100644
--- a/read.go
+++ b/read.go
@@ -215,6 +215,7 @@ func (d *Decoder) processRootModel(ctx context.Context, rootFile packageFile, mo
 func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs error) {
 	var (
 		wg                 sync.WaitGroup
+		mu                 sync.Mutex
 		nonRootModelsCount = len(d.nonRootModels)
 	)
 	wg.Add(nonRootModelsCount)
@@ -225,16 +226,19 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 			defer wg.Done()
 			err := d.readChildModel(ctx, i, model)
 			if err != nil {
-				errs = err
+				mu.Lock()
+				// Keep the error that caused the cancellation,
+				// the later ones can be a consequence of it.
+				if errs == nil {
+					errs = err
+				}
+				mu.Unlock()
 				cancel()
 			}
 		}(i)
 	}
 	wg.Wait()
-	if errs != nil {
-		return errs
-	}
-	return nil
+	return errs
 }
 
 func (d *Decoder) processOPC(model *Model) (packageFile, error) {
@@ -312,13 +316,7 @@ func (d *Decoder) readChildModel(ctx context.Context, i int, model *Model) error
 		return err
 	}
 	defer file.Close()
-	err = decodeModelFile(ctx, file, model, attachment.Name(), false, d.Strict)
-	select {
-	case <-ctx.Done():
-		err = ctx.Err()
-	default: // Default is must to avoid blocking
-	}
-	return err
+	return decodeModelFile(ctx, file, model, attachment.Name(), false, d.Strict)
 }
 
 func copyFile(file packageFile) (io.Reader, error) {
-- 
2.43.0


From 2b3f317d7a21a9a6e484b77e9bcb6540b2406e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 02/39] fix: keep the unknown elements of a child model in that
 child

They were appended to the root model, concurrently by the goroutines of
all the child models.
---
 decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 7e37521..f7f431e 100644
--- a/decoder.go
+++ b/decoder.go
@@ -43,7 +43,11 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		dec := spec.NewElementDecoder(name)
 		child = dec
 		if dec != nil {
-			d.model.Any = append(d.model.Any, dec.Element().(spec.Marshaler))
+			any := &d.model.Any
+			if !d.isRoot {
+				any = &d.model.Childs[d.path].Any
+			}
+			*any = append(*any, dec.Element().(spec.Marshaler))
 		}
 		i = -1
 	}
-- 
2.43.0


From de196bb6979abffb67f519a39786a4a85d35693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 03/39] fix: forget the child models of a previous decode

Decoding twice with the same decoder decoded the child models of the
first package again, into the model of the second decode.
---
 read.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/read.go b/read.go
index 60a488b..78343a2 100644
--- a/read.go
+++ b/read.go
@@ -245,6 +245,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	if err := d.p.Open(d.flate); err != nil {
 		return nil, err
 	}
+	d.nonRootModels = nil
 	var rootFile packageFile
 	for _, r := range d.p.Relationships() {
 		if r.Type == RelType3DModel {
-- 
2.43.0


From 10eceb5817450d48baec3ba4f77a4af37b557147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 04/39] fix: report the attachments that cannot be read

An attachment whose part could not be opened or read was silently left
out of the decoded model.
---
 read.go | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/read.go b/read.go
index 78343a2..64ecb72 100644
--- a/read.go
+++ b/read.go
@@ -255,13 +255,19 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 				return nil, errors.New("package root model points to an unexisting file")
 			}
 			model.Path = rootFile.Name()
-			d.extractCoreAttachments(rootFile, model, true)
+			if err := d.extractCoreAttachments(rootFile, model, true); err != nil {
+				return nil, err
+			}
 			for _, file := range d.nonRootModels {
-				d.extractCoreAttachments(file, model, false)
+				if err := d.extractCoreAttachments(file, model, false); err != nil {
+					return nil, err
+				}
 			}
 		} else if att, ok := d.p.FindFileFromName(r.Path); ok {
 			model.RootRelationships = append(model.RootRelationships, r)
-			model.Attachments = d.addAttachment(model.Attachments, att)
+			if err := d.addAttachment(model, att); err != nil {
+				return nil, err
+			}
 		}
 	}
 	if rootFile == nil {
@@ -270,7 +276,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	return rootFile, nil
 }
 
-func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, isRoot bool) {
+func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, isRoot bool) error {
 	for _, rel := range modelFile.Relationships() {
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
 			if isRoot {
@@ -281,33 +287,40 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 					}
 					model.Childs[file.Name()] = new(ChildModel)
 				} else {
-					model.Attachments = d.addAttachment(model.Attachments, file)
+					if err := d.addAttachment(model, file); err != nil {
+						return err
+					}
 					model.Relationships = append(model.Relationships, rel)
 				}
 			} else if rel.Type != RelType3DModel {
 				if child, ok := model.Childs[modelFile.Name()]; ok {
-					model.Attachments = d.addAttachment(model.Attachments, file)
+					if err := d.addAttachment(model, file); err != nil {
+						return err
+					}
 					child.Relationships = append(child.Relationships, rel)
 				}
 			}
 		}
 	}
+	return nil
 }
 
-func (d *Decoder) addAttachment(attachments []Attachment, file packageFile) []Attachment {
-	for _, att := range attachments {
+func (d *Decoder) addAttachment(model *Model, file packageFile) error {
+	for _, att := range model.Attachments {
 		if strings.EqualFold(att.Path, file.Name()) {
-			return attachments
+			return nil
 		}
 	}
-	if buff, err := copyFile(file); err == nil {
-		return append(attachments, Attachment{
-			Path:        file.Name(),
-			Stream:      buff,
-			ContentType: file.ContentType(),
-		})
+	buff, err := copyFile(file)
+	if err != nil {
+		return err
 	}
-	return attachments
+	model.Attachments = append(model.Attachments, Attachment{
+		Path:        file.Name(),
+		Stream:      buff,
+		ContentType: file.ContentType(),
+	})
+	return nil
 }
 
 func (d *Decoder) readChildModel(ctx context.Context, i int, model *Model) error {
-- 
2.43.0


From a0019e81ab5cb80959bdd7a788b6cb5814052639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 05/39] fix: decode once a child model that is related twice

Each relationship started a goroutine, and all of them filled the same
child model at the same time.
---
 read.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/read.go b/read.go
index 64ecb72..18a670d 100644
--- a/read.go
+++ b/read.go
@@ -281,6 +281,9 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
 			if isRoot {
 				if rel.Type == RelType3DModel {
+					if d.isNonRootModel(file.Name()) {
+						continue
+					}
 					d.nonRootModels = append(d.nonRootModels, file)
 					if model.Childs == nil {
 						model.Childs = make(map[string]*ChildModel)
@@ -305,6 +308,15 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 	return nil
 }
 
+func (d *Decoder) isNonRootModel(name string) bool {
+	for _, file := range d.nonRootModels {
+		if file.Name() == name {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *Decoder) addAttachment(model *Model, file packageFile) error {
 	for _, att := range model.Attachments {
 		if strings.EqualFold(att.Path, file.Name()) {
-- 
2.43.0


From 9ef0daf6fcb88cb8ffca8b613da3bd577de0d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 06/39] fix: encode all the elements of an extension point

Only the first one was encoded.
---
 spec/spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/spec.go b/spec/spec.go
index 9faae81..2ec83d7 100644
--- a/spec/spec.go
+++ b/spec/spec.go
@@ -123,7 +123,7 @@ type Any []Marshaler
 
 func (e Any) Marshal3MF(x Encoder, start *xml.StartElement) error {
 	for _, ext := range e {
-		if err := ext.Marshal3MF(x, start); err == nil {
+		if err := ext.Marshal3MF(x, start); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From b7c129d31c0f2727bcc3d7076f0456694e4e8560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 07/39] fix: match every end element with its own start element

An element inside an unknown one ended the closest decoded element with
its same name: the rest of the unknown content was lost or attributed to
another element, and a decoder could be ended twice, which panics. The
content of ignored elements was also decoded as content of the element
that holds them.
---
 read.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/read.go b/read.go
index 18a670d..0f1c9cd 100644
--- a/read.go
+++ b/read.go
@@ -72,17 +72,23 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 
 	var (
 		currentDecoder spec.ElementDecoder
-		currentName    xml.Name
+		ignored        int // Open elements below the current one that have no decoder.
 		errs           specerr.List
 	)
-	currentDecoder = &topLevelDecoder{isRoot: isRoot, model: model, path: path}
+	topDecoder := &topLevelDecoder{isRoot: isRoot, model: model, path: path}
+	currentDecoder = topDecoder
 	var err error
 	x.OnStart = func(tp xml3mf.StartElement) {
 		if childDecoder, ok := currentDecoder.(spec.ChildElementDecoder); ok {
+			if ignored > 0 {
+				ignored++
+				return
+			}
 			i, tmpDecoder := childDecoder.Child(tp.Name)
-			if tmpDecoder != nil {
+			if tmpDecoder == nil {
+				ignored++
+			} else {
 				stack = append(stack, stackElement{tmpDecoder, tp.Name, i})
-				currentName = tp.Name
 				currentDecoder = tmpDecoder
 				err := currentDecoder.Start(*(*[]spec.XMLAttr)(unsafe.Pointer(&tp.Attr)))
 				if err != nil {
@@ -105,18 +111,24 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 				Name: tp.Name,
 				Attr: xattrs,
 			})
+			ignored++
+		} else {
+			ignored++
 		}
 	}
 	x.OnEnd = func(tp xml.EndElement) {
-		if currentName == tp.Name {
+		if ignored == 0 {
 			currentDecoder.End()
 			stack = stack[:len(stack)-1]
 			if len(stack) > 0 {
-				element := stack[len(stack)-1]
-				currentDecoder = element.decoder
-				currentName = element.name
+				currentDecoder = stack[len(stack)-1].decoder
+			} else {
+				currentDecoder = topDecoder
 			}
-		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
+			return
+		}
+		ignored--
+		if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
 			appendDecoder.AppendToken(tp)
 		}
 	}
-- 
2.43.0


From 9eb1a1c9415135c72e406e6486f4eeef979ae182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 08/39] fix: keep extension attributes where the extension
 defines none

An attribute of a registered extension on an element for which that
extension has no attributes made the decoder panic.
---
 spec/spec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spec/spec.go b/spec/spec.go
index 2ec83d7..e944ba0 100644
--- a/spec/spec.go
+++ b/spec/spec.go
@@ -104,7 +104,9 @@ func (a AnyAttr) Marshal3MF(x Encoder, start *xml.StartElement) error {
 
 func NewAttrGroup(namespace string, parent xml.Name) AttrGroup {
 	if ext, ok := Load(namespace); ok {
-		return ext.NewAttrGroup(parent)
+		if attr := ext.NewAttrGroup(parent); attr != nil {
+			return attr
+		}
 	}
 	return &UnknownAttrs{
 		Space: namespace,
-- 
2.43.0


From 4e70a5091c5e53e562246a3b879a7a1edd3235f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 09/39] fix: ignore extension elements in a place they do not
 belong to

An element of a registered extension that is not an asset made the
decoder panic when found inside the resources.
---
 decoder.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/decoder.go b/decoder.go
index f7f431e..6d72b9d 100644
--- a/decoder.go
+++ b/decoder.go
@@ -41,13 +41,15 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		}
 	} else {
 		dec := spec.NewElementDecoder(name)
-		child = dec
 		if dec != nil {
-			any := &d.model.Any
-			if !d.isRoot {
-				any = &d.model.Childs[d.path].Any
+			if element, ok := dec.Element().(spec.Marshaler); ok {
+				child = dec
+				any := &d.model.Any
+				if !d.isRoot {
+					any = &d.model.Childs[d.path].Any
+				}
+				*any = append(*any, element)
 			}
-			*any = append(*any, dec.Element().(spec.Marshaler))
 		}
 		i = -1
 	}
@@ -304,9 +306,11 @@ func (d *resourceDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder
 	} else if ext, ok := spec.Load(name.Space); ok {
 		dec := ext.NewElementDecoder(name)
 		i = len(d.resources.Assets)
-		child = dec
 		if dec != nil {
-			d.resources.Assets = append(d.resources.Assets, dec.Element().(Asset))
+			if asset, ok := dec.Element().(Asset); ok {
+				child = dec
+				d.resources.Assets = append(d.resources.Assets, asset)
+			}
 		}
 	} else {
 		child = &unknownAssetDecoder{UnknownTokensDecoder: *spec.NewUnknownDecoder(name), resources: d.resources}
@@ -423,9 +427,11 @@ func (d *meshDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		}
 	} else {
 		dec := spec.NewElementDecoder(name)
-		child = dec
 		if dec != nil {
-			d.resource.Mesh.Any = append(d.resource.Mesh.Any, dec.Element().(spec.Marshaler))
+			if element, ok := dec.Element().(spec.Marshaler); ok {
+				child = dec
+				d.resource.Mesh.Any = append(d.resource.Mesh.Any, element)
+			}
 		}
 		i = -1
 	}
-- 
2.43.0


From 2a3d6ef84ac1662b45a8f83ddc581143ede6fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 10/39] fix: encode the extension attributes of the triangles

They overwrote the names of the optional attributes of the following
triangles, and were written without escaping them.
---
 encoder.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/encoder.go b/encoder.go
index 39c84f7..f029114 100644
--- a/encoder.go
+++ b/encoder.go
@@ -485,22 +485,30 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 		attrs[0].Value = strconv.FormatUint(uint64(t.V1), 10)
 		attrs[1].Value = strconv.FormatUint(uint64(t.V2), 10)
 		attrs[2].Value = strconv.FormatUint(uint64(t.V3), 10)
-		start.Attr = attrs[:3]
+		// Limit the capacity so that the extension attributes, if any,
+		// do not overwrite the names of the optional ones.
+		start.Attr = attrs[:3:3]
 		if t.PID != 0 {
 			if (t.P1 != t.P2) || (t.P1 != t.P3) {
 				attrs[3].Value = strconv.FormatUint(uint64(t.PID), 10)
 				attrs[4].Value = strconv.FormatUint(uint64(t.P1), 10)
 				attrs[5].Value = strconv.FormatUint(uint64(t.P2), 10)
 				attrs[6].Value = strconv.FormatUint(uint64(t.P3), 10)
-				start.Attr = attrs[:7]
+				start.Attr = attrs[:7:7]
 			} else if (t.PID != r.PID) || (t.P1 != r.PIndex) {
 				attrs[3].Value = strconv.FormatUint(uint64(t.PID), 10)
 				attrs[4].Value = strconv.FormatUint(uint64(t.P1), 10)
-				start.Attr = attrs[:5]
+				start.Attr = attrs[:5:5]
 			}
 		}
-		t.AnyAttr.Marshal3MF(x, &start)
-		x.EncodeToken(start)
+		if len(t.AnyAttr) != 0 {
+			t.AnyAttr.Marshal3MF(x, &start)
+			x.SetSkipAttrEscape(false)
+			x.EncodeToken(start)
+			x.SetSkipAttrEscape(true)
+		} else {
+			x.EncodeToken(start)
+		}
 	}
 	x.SetSkipAttrEscape(false)
 	x.SetAutoClose(false)
-- 
2.43.0


From e76ae449b084ce8383bdd4baf2c5ca7d080aa7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 11/39] fix: encode r2 when only r1 differs from the lattice
 radius

It was omitted, so that it was decoded as r1.
---
 beamlattice/encoder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beamlattice/encoder.go b/beamlattice/encoder.go
index 67ebf58..0e1d9f1 100644
--- a/beamlattice/encoder.go
+++ b/beamlattice/encoder.go
@@ -77,13 +77,15 @@ func marshalBeams(x spec.Encoder, m *BeamLattice) {
 			{Name: xml.Name{Local: attrV1}, Value: strconv.FormatUint(uint64(b.Indices[0]), 10)},
 			{Name: xml.Name{Local: attrV2}, Value: strconv.FormatUint(uint64(b.Indices[1]), 10)},
 		}}
-		if b.Radius[0] > 0 && b.Radius[0] != m.Radius {
+		hasR1 := b.Radius[0] > 0 && b.Radius[0] != m.Radius
+		if hasR1 {
 			xbeam.Attr = append(xbeam.Attr, xml.Attr{
 				Name:  xml.Name{Local: attrR1},
 				Value: strconv.FormatFloat(float64(b.Radius[0]), 'f', x.FloatPresicion(), 32),
 			})
 		}
-		if b.Radius[1] > 0 && b.Radius[1] != m.Radius {
+		// When r2 is missing it defaults to r1, which defaults to the lattice radius.
+		if b.Radius[1] > 0 && (hasR1 || b.Radius[1] != m.Radius) {
 			xbeam.Attr = append(xbeam.Attr, xml.Attr{
 				Name:  xml.Name{Local: attrR2},
 				Value: strconv.FormatFloat(float64(b.Radius[1]), 'f', x.FloatPresicion(), 32),
-- 
2.43.0


From be3439d66d948bd51a7b0ab16cd704fdf060ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 12/39] fix: do not share the relationships of a child model
 with its encoder

Relationships added while encoding could be written to the spare
capacity of the slice of the model, concurrently if the model is being
encoded more than once.
---
 encoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index f029114..50c07dc 100644
--- a/encoder.go
+++ b/encoder.go
@@ -193,7 +193,8 @@ func (e *Encoder) writeChildModels(m *Model) error {
 			return err
 		}
 		enc := newXMLEncoder(w, e.FloatPrecision)
-		enc.relationships = child.Relationships
+		enc.relationships = make([]Relationship, len(child.Relationships))
+		copy(enc.relationships, child.Relationships)
 		if err = e.writeChildModel(enc, m, child); err != nil {
 			return err
 		}
-- 
2.43.0


From d45285fc22816b8f7cdf641c1615a6e23dcb89d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 13/39] fix: set the UUID of a build whose attribute has none

---
 production/production.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/production/production.go b/production/production.go
index ce4dce7..fa66446 100644
--- a/production/production.go
+++ b/production/production.go
@@ -127,8 +127,10 @@ func (p *ComponentAttr) getUUID() string {
 // SetMissingUUIDs traverse all the model tree setting
 // all missing UUID attributes.
 func SetMissingUUIDs(m *go3mf.Model) {
-	if GetBuildAttr(&m.Build) == nil {
+	if ext := GetBuildAttr(&m.Build); ext == nil {
 		m.Build.AnyAttr = append(m.Build.AnyAttr, &BuildAttr{UUID: uuid.New()})
+	} else if ext.UUID == "" {
+		ext.UUID = uuid.New()
 	}
 	for _, item := range m.Build.Items {
 		ext := GetItemAttr(item)
-- 
2.43.0


From 49eb1063fe640208b73c9b03318d8f68fce2ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 14/39] fix: resolve metadata names with the namespaces of
 their own file

The extensions of the root model were used for the metadata of child
models, which are decoded before the root declares any.
---
 decoder.go | 61 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/decoder.go b/decoder.go
index 6d72b9d..ba48de4 100644
--- a/decoder.go
+++ b/decoder.go
@@ -16,9 +16,10 @@ import (
 
 type modelDecoder struct {
 	baseDecoder
-	model  *Model
-	isRoot bool
-	path   string
+	model      *Model
+	isRoot     bool
+	path       string
+	extensions []Extension // Declared by the file being decoded.
 }
 
 func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
@@ -26,16 +27,16 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		switch name.Local {
 		case attrResources:
 			resources, _ := d.model.FindResources(d.path)
-			child = &resourceDecoder{resources: resources, model: d.model}
+			child = &resourceDecoder{resources: resources, extensions: d.extensions}
 			i = -1
 		case attrBuild:
 			if d.isRoot {
-				child = &buildDecoder{build: &d.model.Build, model: d.model}
+				child = &buildDecoder{build: &d.model.Build, extensions: d.extensions}
 				i = -1
 			}
 		case attrMetadata:
 			if d.isRoot {
-				child = &metadataDecoder{metadatas: &d.model.Metadata, model: d.model}
+				child = &metadataDecoder{metadatas: &d.model.Metadata, extensions: d.extensions}
 				i = len(d.model.Metadata)
 			}
 		}
@@ -58,6 +59,11 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 
 func (d *modelDecoder) Start(attrs []spec.XMLAttr) (err error) {
 	if !d.isRoot {
+		for _, a := range attrs {
+			if a.Name.Space == attrXmlns {
+				d.extensions = append(d.extensions, Extension{Namespace: string(a.Value), LocalName: a.Name.Local})
+			}
+		}
 		return
 	}
 	var requiredExts []string
@@ -88,6 +94,7 @@ func (d *modelDecoder) Start(attrs []spec.XMLAttr) (err error) {
 			}
 		}
 	}
+	d.extensions = d.model.Extensions
 	return
 }
 
@@ -116,13 +123,13 @@ func (d *modelDecoder) noCoreAttribute(a spec.XMLAttr) (err error) {
 
 type metadataGroupDecoder struct {
 	baseDecoder
-	metadatas *MetadataGroup
-	model     *Model
+	metadatas  *MetadataGroup
+	extensions []Extension
 }
 
 func (d *metadataGroupDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace && name.Local == attrMetadata {
-		child = &metadataDecoder{metadatas: &d.metadatas.Metadata, model: d.model}
+		child = &metadataDecoder{metadatas: &d.metadatas.Metadata, extensions: d.extensions}
 		i = len(d.metadatas.Metadata)
 	}
 	return
@@ -143,13 +150,13 @@ func (d *metadataGroupDecoder) Start(attrs []spec.XMLAttr) error {
 
 type metadataDecoder struct {
 	baseDecoder
-	model     *Model
-	metadatas *[]Metadata
-	metadata  Metadata
+	extensions []Extension
+	metadatas  *[]Metadata
+	metadata   Metadata
 }
 
 func (d *metadataDecoder) namespace(local string) (string, bool) {
-	for _, ext := range d.model.Extensions {
+	for _, ext := range d.extensions {
 		if ext.LocalName == local {
 			return ext.Namespace, true
 		}
@@ -193,13 +200,13 @@ func (d *metadataDecoder) End() {
 
 type buildDecoder struct {
 	baseDecoder
-	model *Model
-	build *Build
+	extensions []Extension
+	build      *Build
 }
 
 func (d *buildDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace && name.Local == attrItem {
-		child = &buildItemDecoder{build: d.build, model: d.model}
+		child = &buildItemDecoder{build: d.build, extensions: d.extensions}
 		i = len(d.build.Items)
 	}
 	return
@@ -220,9 +227,9 @@ func (d *buildDecoder) Start(attrs []spec.XMLAttr) error {
 
 type buildItemDecoder struct {
 	baseDecoder
-	model *Model
-	build *Build
-	item  Item
+	extensions []Extension
+	build      *Build
+	item       Item
 }
 
 func (d *buildItemDecoder) End() {
@@ -231,7 +238,7 @@ func (d *buildItemDecoder) End() {
 
 func (d *buildItemDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace && name.Local == attrMetadataGroup {
-		child = &metadataGroupDecoder{metadatas: &d.item.Metadata, model: d.model}
+		child = &metadataGroupDecoder{metadatas: &d.item.Metadata, extensions: d.extensions}
 		i = -1
 	}
 	return
@@ -276,8 +283,8 @@ func (d *buildItemDecoder) parseCoreAttr(a spec.XMLAttr) (errs error) {
 
 type resourceDecoder struct {
 	baseDecoder
-	model     *Model
-	resources *Resources
+	extensions []Extension
+	resources  *Resources
 }
 
 func (d *resourceDecoder) Start(attrs []spec.XMLAttr) error {
@@ -297,7 +304,7 @@ func (d *resourceDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder
 	if name.Space == Namespace {
 		switch name.Local {
 		case attrObject:
-			child = &objectDecoder{resources: d.resources, model: d.model}
+			child = &objectDecoder{resources: d.resources, extensions: d.extensions}
 			i = len(d.resources.Objects)
 		case attrBaseMaterials:
 			child = &baseMaterialsDecoder{resources: d.resources}
@@ -605,9 +612,9 @@ func applyDefault(val, defVal uint32, noDef bool) uint32 {
 
 type objectDecoder struct {
 	baseDecoder
-	model     *Model
-	resources *Resources
-	resource  Object
+	extensions []Extension
+	resources  *Resources
+	resource   Object
 }
 
 func (d *objectDecoder) End() {
@@ -640,7 +647,7 @@ func (d *objectDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder)
 			child = &componentsDecoder{resource: &d.resource}
 			i = -1
 		} else if name.Local == attrMetadataGroup {
-			child = &metadataGroupDecoder{metadatas: &d.resource.Metadata, model: d.model}
+			child = &metadataGroupDecoder{metadatas: &d.resource.Metadata, extensions: d.extensions}
 			i = -1
 		}
 	}
-- 
2.43.0


From b4d936ddfedbdc99e3eb072ea2dd3d65b141a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 15/39] fix: report the read errors found while detecting the
 STL encoding

Any error but the end of the stream was ignored and the detection was
retried for ever.
---
 importer/stl/decoder.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index 82fd9b1..fb36a63 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -59,17 +59,11 @@ func (d *Decoder) DecodeContext(ctx context.Context, m *go3mf.Model) error {
 }
 
 func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
-	var header string
-	for {
-		buff, err := r.Peek(sizeOfHeader)
-		if err == io.EOF {
-			return false, err
-		}
-		if len(buff) >= sizeOfHeader {
-			header = strings.ToLower(string(buff))
-			break
-		}
+	buff, err := r.Peek(sizeOfHeader)
+	if err != nil {
+		return false, err
 	}
+	header := strings.ToLower(string(buff))
 	return strings.HasPrefix(header, "solid") && isASCII(header), nil
 }
 
-- 
2.43.0


From 034243809d0279e0d7909b4cd9a4ee86e5c2af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 16/39] fix: stop a binary STL import when its context is done

The error was overwritten by the result of reading the next face.
---
 importer/stl/binary.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index dce85a7..6bd97e7 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -47,8 +47,7 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 		if len(m.Triangles.Triangle) > nextFaceCheck {
 			select {
 			case <-ctx.Done():
-				err = ctx.Err()
-				break
+				return ctx.Err()
 			default: // Default is must to avoid blocking
 			}
 			nextFaceCheck += checkEveryFaces
-- 
2.43.0


From 0f7fe0541913f585e653b61b2b1b2f557f223bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 17/39] fix: compute the bounding box of components in their
 own part

The components of an object in another part were resolved in the part of
the referencing object, and objects without extent or a missing one
yielded an inverted box.
---
 core.go | 29 +++++++++++++++++------------
 math.go |  2 --
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/core.go b/core.go
index 0d2d16a..f9059d3 100644
--- a/core.go
+++ b/core.go
@@ -240,23 +240,26 @@ func (m *Model) BoundingBox() Box {
 	}
 	var wg sync.WaitGroup
 	var mu sync.Mutex
-	box := newLimitBox()
+	box, found := newLimitBox(), false
 	wg.Add(len(m.Build.Items))
 	for i := range m.Build.Items {
 		go func(i int) {
 			defer wg.Done()
 			item := m.Build.Items[i]
 			if o, ok := m.FindObject(item.ObjectPath(), item.ObjectID); ok {
-				ibox := o.boundingBox(m, item.ObjectPath())
-				if ibox != emptyBox {
+				if ibox, ok := o.boundingBox(m, item.ObjectPath()); ok {
 					mu.Lock()
 					box = box.extend(item.Transform.MulBox(ibox))
+					found = true
 					mu.Unlock()
 				}
 			}
 		}(i)
 	}
 	wg.Wait()
+	if !found {
+		return Box{}
+	}
 	return box
 }
 
@@ -413,23 +416,25 @@ type Object struct {
 	AnyAttr    spec.AnyAttr
 }
 
-func (o *Object) boundingBox(m *Model, path string) Box {
+// boundingBox returns the bounding box of the object, if it has any extent.
+func (o *Object) boundingBox(m *Model, path string) (box Box, found bool) {
 	if o.Mesh != nil {
-		return o.Mesh.BoundingBox()
+		return o.Mesh.BoundingBox(), len(o.Mesh.Vertices.Vertex) != 0
 	}
-	if o.Components == nil || len(o.Components.Component) == 0 {
-		return Box{}
+	if o.Components == nil {
+		return Box{}, false
 	}
-	box := newLimitBox()
+	box = newLimitBox()
 	for _, c := range o.Components.Component {
-		if obj, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-			cbox := obj.boundingBox(m, path)
-			if cbox != emptyBox {
+		cpath := c.ObjectPath(path)
+		if obj, ok := m.FindObject(cpath, c.ObjectID); ok {
+			if cbox, ok := obj.boundingBox(m, cpath); ok {
 				box = box.extend(c.Transform.MulBox(cbox))
+				found = true
 			}
 		}
 	}
-	return box
+	return box, found
 }
 
 // A Components is an in memory representation of the 3MF components.
diff --git a/math.go b/math.go
index 4612e0b..9623d1d 100644
--- a/math.go
+++ b/math.go
@@ -200,8 +200,6 @@ type Box struct {
 	Max Point3D
 }
 
-var emptyBox = Box{}
-
 func newLimitBox() Box {
 	return Box{
 		Min: Point3D{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32},
-- 
2.43.0


From 90e58c4d6883b6a2002fb806bd5c20125635f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 18/39] fix: transform all the corners of a bounding box

---
 math.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/math.go b/math.go
index 9623d1d..1a75b8c 100644
--- a/math.go
+++ b/math.go
@@ -178,18 +178,16 @@ func (m1 Matrix) MulBox(b Box) Box {
 	if m1[15] == 0 {
 		return b
 	}
-	box := Box{
-		Min: m1.Mul3D(b.Min),
-		Max: m1.Mul3D(b.Max),
-	}
-	if box.Min.X() > box.Max.X() {
-		box.Min[0], box.Max[0] = box.Max[0], box.Min[0]
-	}
-	if box.Min.Y() > box.Max.Y() {
-		box.Min[1], box.Max[1] = box.Max[1], box.Min[1]
-	}
-	if box.Min.Z() > box.Max.Z() {
-		box.Min[2], box.Max[2] = box.Max[2], box.Min[2]
+	// All the corners matter, as a rotation swaps their extremes.
+	box := newLimitBox()
+	for i := 0; i < 8; i++ {
+		v := b.Min
+		for j := range v {
+			if i&(1<<uint(j)) != 0 {
+				v[j] = b.Max[j]
+			}
+		}
+		box = box.extendPoint(m1.Mul3D(v))
 	}
 	return box
 }
-- 
2.43.0


From 6bd4a311f893779e157112aff6b4391a2dba1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 19/39] fix: do not allocate the faces a binary STL only
 announces

---
 importer/stl/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index 6bd97e7..3ce147e 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -35,7 +35,7 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 	if err != nil {
 		return err
 	}
-	mb.Mesh.Triangles.Triangle = make([]go3mf.Triangle, 0, header.FaceCount)
+	// The face count is not trusted to allocate memory beforehand.
 	nextFaceCheck := checkEveryFaces
 	var facet binaryFace
 	for nFace := 0; nFace < int(header.FaceCount); nFace++ {
-- 
2.43.0


From 523a83f517c88ba8410f0c9c419d601e5d7d4aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 20/39] fix: find an unused ID when some are repeated or
 missing

---
 core.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/core.go b/core.go
index f9059d3..cbb00cc 100644
--- a/core.go
+++ b/core.go
@@ -150,15 +150,14 @@ func (rs *Resources) UnusedID() uint32 {
 		ids[len(rs.Assets)+i+1] = int(o.ID)
 	}
 	sort.Ints(ids)
-	lowest := 0
-	for i, id := range ids {
-		if id != i {
-			lowest = i
+	lowest := 1
+	for _, id := range ids {
+		if id > lowest {
 			break
 		}
-	}
-	if lowest == 0 {
-		lowest = ids[len(ids)-1] + 1
+		if id == lowest {
+			lowest++
+		}
 	}
 	return uint32(lowest)
 }
-- 
2.43.0


From de9795ef3cc546f6d5a4cb9d635f3a4382b9a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 21/39] fix: report every attribute value that cannot be parsed

The cap mode of a beam, the texture and blend enumerations and the
preserve flag were silently replaced by their default.
---
 beamlattice/decoder.go |  4 ++++
 decoder.go             |  9 +++++++--
 materials/decoder.go   | 29 ++++++++++++++++++++++++-----
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/beamlattice/decoder.go b/beamlattice/decoder.go
index ede9196..1cb4ac4 100644
--- a/beamlattice/decoder.go
+++ b/beamlattice/decoder.go
@@ -156,12 +156,16 @@ func (d *beamDecoder) Start(attrs []spec.XMLAttr) error {
 			beam.CapMode[0], ok = newCapMode(string(a.Value))
 			if ok {
 				hasCap1 = true
+			} else {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
 		case attrCap2:
 			var ok bool
 			beam.CapMode[1], ok = newCapMode(string(a.Value))
 			if ok {
 				hasCap2 = true
+			} else {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
 		}
 	}
diff --git a/decoder.go b/decoder.go
index ba48de4..dd4c826 100644
--- a/decoder.go
+++ b/decoder.go
@@ -165,6 +165,7 @@ func (d *metadataDecoder) namespace(local string) (string, bool) {
 }
 
 func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
+	var errs error
 	for _, a := range attrs {
 		if a.Name.Space != "" {
 			continue
@@ -184,10 +185,14 @@ func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
 		case attrType:
 			d.metadata.Type = string(a.Value)
 		case attrPreserve:
-			d.metadata.Preserve, _ = strconv.ParseBool(string(a.Value))
+			var err error
+			d.metadata.Preserve, err = strconv.ParseBool(string(a.Value))
+			if err != nil {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		}
 	}
-	return nil
+	return errs
 }
 
 func (d *metadataDecoder) CharData(txt []byte) {
diff --git a/materials/decoder.go b/materials/decoder.go
index b038fb9..a7e40b3 100644
--- a/materials/decoder.go
+++ b/materials/decoder.go
@@ -187,13 +187,29 @@ func (d *texture2DDecoder) Start(attrs []spec.XMLAttr) error {
 		case attrPath:
 			d.resource.Path = string(a.Value)
 		case attrContentType:
-			d.resource.ContentType, _ = newTexture2DType(string(a.Value))
+			var ok bool
+			d.resource.ContentType, ok = newTexture2DType(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
+			}
 		case attrTileStyleU:
-			d.resource.TileStyleU, _ = newTileStyle(string(a.Value))
+			var ok bool
+			d.resource.TileStyleU, ok = newTileStyle(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		case attrTileStyleV:
-			d.resource.TileStyleV, _ = newTileStyle(string(a.Value))
+			var ok bool
+			d.resource.TileStyleV, ok = newTileStyle(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		case attrFilter:
-			d.resource.Filter, _ = newTextureFilter(string(a.Value))
+			var ok bool
+			d.resource.Filter, ok = newTextureFilter(string(a.Value))
+			if !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		}
 	}
 	return errs
@@ -309,7 +325,10 @@ func (d *multiPropertiesDecoder) Start(attrs []spec.XMLAttr) error {
 			d.resource.ID = uint32(id)
 		case attrBlendMethods:
 			for _, f := range strings.Fields(string(a.Value)) {
-				val, _ := newBlendMethod(f)
+				val, ok := newBlendMethod(f)
+				if !ok {
+					errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+				}
 				d.resource.BlendMethods = append(d.resource.BlendMethods, val)
 			}
 		case attrPIDs:
-- 
2.43.0


From 98dee629d9f629fb98f5e740f3390a4144f4ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 22/39] fix: do not stop a non strict decode at the errors of a
 child model

---
 read.go | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/read.go b/read.go
index 0f1c9cd..6fa327b 100644
--- a/read.go
+++ b/read.go
@@ -62,6 +62,20 @@ func (r *ReadCloser) Close() error {
 }
 
 func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string, isRoot, strict bool) error {
+	errs, err := decodeModel(ctx, r, model, path, isRoot, strict)
+	if err == nil && errs.Len() != 0 {
+		if strict || errs.Len() == 1 {
+			err = errs.Unwrap()
+		} else {
+			err = errs
+		}
+	}
+	return err
+}
+
+// decodeModel decodes a model file and returns the list of recoverable errors
+// and the error, if any, that stopped the decoding.
+func decodeModel(ctx context.Context, r io.Reader, model *Model, path string, isRoot, strict bool) (*specerr.List, error) {
 	x := xml3mf.NewDecoder(r)
 	type stackElement struct {
 		decoder spec.ElementDecoder
@@ -160,14 +174,7 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 	if err == io.EOF {
 		err = nil
 	}
-	if err == nil && errs.Len() != 0 {
-		if strict || errs.Len() == 1 {
-			err = errs.Unwrap()
-		} else {
-			err = &errs
-		}
-	}
-	return err
+	return &errs, err
 }
 
 // Decoder implements a 3mf file decoder.
@@ -176,6 +183,7 @@ type Decoder struct {
 	p             packageReader
 	flate         func(r io.Reader) io.ReadCloser
 	nonRootModels []packageFile
+	childErrors   []*specerr.List // Recoverable errors of nonRootModels.
 }
 
 // NewDecoder returns a new Decoder reading a 3mf file from r.
@@ -200,7 +208,18 @@ func (d *Decoder) DecodeContext(ctx context.Context, model *Model) error {
 	if err := d.processNonRootModels(ctx, model); err != nil {
 		return err
 	}
-	return d.processRootModel(ctx, rootFile, model)
+	err = d.processRootModel(ctx, rootFile, model)
+	for _, errs := range d.childErrors {
+		if errs.Len() == 0 {
+			continue
+		}
+		if err == nil && errs.Len() == 1 {
+			err = errs.Unwrap()
+		} else {
+			err = specerr.Append(err, errs)
+		}
+	}
+	return err
 }
 
 // UnmarshalModel fills a model with the data of a root model file
@@ -230,6 +249,7 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 		mu                 sync.Mutex
 		nonRootModelsCount = len(d.nonRootModels)
 	)
+	d.childErrors = make([]*specerr.List, nonRootModelsCount)
 	wg.Add(nonRootModelsCount)
 	ctx, cancel := context.WithCancel(ctx)
 	defer cancel()
@@ -354,7 +374,12 @@ func (d *Decoder) readChildModel(ctx context.Context, i int, model *Model) error
 		return err
 	}
 	defer file.Close()
-	return decodeModelFile(ctx, file, model, attachment.Name(), false, d.Strict)
+	errs, err := decodeModel(ctx, file, model, attachment.Name(), false, d.Strict)
+	if err == nil && d.Strict {
+		err = errs.Unwrap()
+	}
+	d.childErrors[i] = errs
+	return err
 }
 
 func copyFile(file packageFile) (io.Reader, error) {
-- 
2.43.0


From dfe6551c80bcecca380514bcd5ddc2d3fe9ca9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 23/39] fix: keep the text of the unknown elements

---
 read.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/read.go b/read.go
index 6fa327b..354945a 100644
--- a/read.go
+++ b/read.go
@@ -147,10 +147,12 @@ func decodeModel(ctx context.Context, r io.Reader, model *Model, path string, is
 		}
 	}
 	x.OnChar = func(tp xml.CharData) {
-		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
-			currentDecoder.CharData(tp)
+		if charDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
+			charDecoder.CharData(tp)
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp)
+			if len(bytes.TrimSpace(tp)) != 0 { // Indentation is not kept.
+				appendDecoder.AppendToken(tp.Copy())
+			}
 		}
 	}
 	var i int
-- 
2.43.0


From ecad06a3176d9d5e072dbaa13100db1e078484ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 24/39] fix: do not weld distinct vertices with large
 coordinates

---
 math.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/math.go b/math.go
index 1a75b8c..f1a5a5f 100644
--- a/math.go
+++ b/math.go
@@ -35,20 +35,20 @@ func newPairEntry(data1, data2 uint32) pairEntry {
 	return pairEntry{data2, data1}
 }
 
-// vec3I represents a 3D vector typed as int32
+// vec3I represents a 3D vector typed as int64
 type vec3I struct {
-	X int32 // X coordinate
-	Y int32 // Y coordinate
-	Z int32 // Z coordinate
+	X int64 // X coordinate
+	Y int64 // Y coordinate
+	Z int64 // Z coordinate
 }
 
 const micronsAccuracy = 1e-6
 
 func newvec3IFromVec3(vec Point3D) vec3I {
 	a := vec3I{
-		X: int32(math.Floor(float64(vec.X() / micronsAccuracy))),
-		Y: int32(math.Floor(float64(vec.Y() / micronsAccuracy))),
-		Z: int32(math.Floor(float64(vec.Z() / micronsAccuracy))),
+		X: int64(math.Floor(float64(vec.X() / micronsAccuracy))),
+		Y: int64(math.Floor(float64(vec.Y() / micronsAccuracy))),
+		Z: int64(math.Floor(float64(vec.Z() / micronsAccuracy))),
 	}
 	return a
 }
-- 
2.43.0


From e08cf54e37cfef866e72584df65185284ea01a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 25/39] fix: keep the unknown text made of other spaces than
 those of XML

---
 read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 354945a..9cfe402 100644
--- a/read.go
+++ b/read.go
@@ -150,7 +150,7 @@ func decodeModel(ctx context.Context, r io.Reader, model *Model, path string, is
 		if charDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
 			charDecoder.CharData(tp)
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			if len(bytes.TrimSpace(tp)) != 0 { // Indentation is not kept.
+			if len(bytes.Trim(tp, " \t\r\n")) != 0 { // Indentation is not kept.
 				appendDecoder.AppendToken(tp.Copy())
 			}
 		}
-- 
2.43.0


From e1f17a286214525d9e6db1a00202a4f5d00928d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 26/39] fix: find the parts whose names the package format
 escapes

---
 opc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opc.go b/opc.go
index c58e2b0..204dd93 100644
--- a/opc.go
+++ b/opc.go
@@ -123,6 +123,7 @@ func resolveRelationship(source, rel string) string {
 }
 
 func findOPCFileFromName(name string, r *opc.Reader) (packageFile, bool) {
+	name = opc.NormalizePartName(name) // As the names of the parts are.
 	for _, f := range r.Files {
 		if f.Name == name {
 			return &opcFile{r, f}, true
-- 
2.43.0


From d87b201d9ece91fbc315771e60410f44409bf76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 27/39] fix: number the segments of a polygon in the errors
 that concern them

---
 slices/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slices/decoder.go b/slices/decoder.go
index 4dd286a..c1b3249 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -214,7 +214,7 @@ type polygonDecoder struct {
 func (d *polygonDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace && name.Local == attrSegment {
 		child = &d.polygonSegmentDecoder
-		i = len(d.slice.Polygons)
+		i = len(d.polygonSegmentDecoder.polygon.Segments)
 	}
 	return
 }
-- 
2.43.0


From a1222fa80e011a17d6788c96157b3e1e0f471b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 28/39] fix: do not take attributes of other namespaces for
 those of slices

---
 slices/decoder.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/slices/decoder.go b/slices/decoder.go
index c1b3249..3c16ad0 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -72,6 +72,9 @@ func (d *sliceStackDecoder) Child(name xml.Name) (i int, child spec.ElementDecod
 func (d *sliceStackDecoder) Start(attrs []spec.XMLAttr) error {
 	var errs error
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrID:
 			id, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -102,6 +105,9 @@ func (d *sliceRefDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrSliceRefID:
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -148,6 +154,9 @@ func (d *sliceDecoder) Start(attrs []spec.XMLAttr) error {
 	d.polygonVerticesDecoder.slice = &d.slice
 	var errs error
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		if a.Name.Local == attrZTop {
 			val, err := strconv.ParseFloat(string(a.Value), 32)
 			if err != nil {
@@ -190,6 +199,9 @@ func (d *polygonVertexDecoder) Start(attrs []spec.XMLAttr) error {
 		errs error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		val, err := strconv.ParseFloat(string(a.Value), 32)
 		if err != nil {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
@@ -225,6 +237,9 @@ func (d *polygonDecoder) Start(attrs []spec.XMLAttr) error {
 	d.slice.Polygons = append(d.slice.Polygons, Polygon{})
 	d.polygonSegmentDecoder.polygon = &d.slice.Polygons[polygonIndex]
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		if a.Name.Local == attrStartV {
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
 			if err != nil {
@@ -249,6 +264,9 @@ func (d *polygonSegmentDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		var required bool
 		val, err := strconv.ParseUint(string(a.Value), 10, 32)
 		switch a.Name.Local {
-- 
2.43.0


From 5e7a6c53058692cc14deccb496034cdf28e646ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 29/39] fix: weld only vertices that are within a micron

Vertices were identified by their coordinates in microns computed in
single precision and truncated to 64 bits, so that different vertices
with big coordinates were taken for the same one.
---
 math.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/math.go b/math.go
index f1a5a5f..a441fd2 100644
--- a/math.go
+++ b/math.go
@@ -35,20 +35,21 @@ func newPairEntry(data1, data2 uint32) pairEntry {
 	return pairEntry{data2, data1}
 }
 
-// vec3I represents a 3D vector typed as int64
+// vec3I represents a 3D vector of integers, typed as float64
+// so that any coordinate can be represented.
 type vec3I struct {
-	X int64 // X coordinate
-	Y int64 // Y coordinate
-	Z int64 // Z coordinate
+	X float64 // X coordinate
+	Y float64 // Y coordinate
+	Z float64 // Z coordinate
 }
 
 const micronsAccuracy = 1e-6
 
 func newvec3IFromVec3(vec Point3D) vec3I {
 	a := vec3I{
-		X: int64(math.Floor(float64(vec.X() / micronsAccuracy))),
-		Y: int64(math.Floor(float64(vec.Y() / micronsAccuracy))),
-		Z: int64(math.Floor(float64(vec.Z() / micronsAccuracy))),
+		X: math.Round(float64(vec.X()) / micronsAccuracy),
+		Y: math.Round(float64(vec.Y()) / micronsAccuracy),
+		Z: math.Round(float64(vec.Z()) / micronsAccuracy),
 	}
 	return a
 }
-- 
2.43.0


From f3412b2dbb3c94b6b95fe6fc639977587b591cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 30/39] fix: keep the repairs of extension points out of the
 spec package

The elements of an extension point are all encoded, and the attributes an
extension does not define are kept, by the callers in the root package.
---
 decoder.go   | 37 +++++++++++++++++++++++--------------
 encoder.go   | 36 +++++++++++++++++++++++++++++-------
 spec/spec.go |  6 ++----
 3 files changed, 54 insertions(+), 25 deletions(-)

diff --git a/decoder.go b/decoder.go
index dd4c826..e5a6443 100644
--- a/decoder.go
+++ b/decoder.go
@@ -14,6 +14,15 @@ import (
 	"github.com/hpinc/go3mf/spec"
 )
 
+// newAttrGroup is like spec.NewAttrGroup, but keeps the attributes
+// for which the extension does not define a group as unknown ones.
+func newAttrGroup(namespace string, parent xml.Name) spec.AttrGroup {
+	if attr := spec.NewAttrGroup(namespace, parent); attr != nil {
+		return attr
+	}
+	return &spec.UnknownAttrs{Space: namespace}
+}
+
 type modelDecoder struct {
 	baseDecoder
 	model      *Model
@@ -113,7 +122,7 @@ func (d *modelDecoder) noCoreAttribute(a spec.XMLAttr) (err error) {
 	default:
 		var attr spec.AttrGroup
 		if attr = d.model.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrModel})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrModel})
 			d.model.AnyAttr = append(d.model.AnyAttr, attr)
 		}
 		err = specerr.Append(err, attr.Unmarshal3MFAttr(a))
@@ -140,7 +149,7 @@ func (d *metadataGroupDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.metadatas.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMetadataGroup})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMetadataGroup})
 			d.metadatas.AnyAttr = append(d.metadatas.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -222,7 +231,7 @@ func (d *buildDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.build.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBuild})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBuild})
 			d.build.AnyAttr = append(d.build.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -257,7 +266,7 @@ func (d *buildItemDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.item.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrItem})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrItem})
 				d.item.AnyAttr = append(d.item.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -297,7 +306,7 @@ func (d *resourceDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resources.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrResources})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrResources})
 			d.resources.AnyAttr = append(d.resources.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -365,7 +374,7 @@ func (d *baseMaterialsDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.resource.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBaseMaterials})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBaseMaterials})
 				d.resource.AnyAttr = append(d.resource.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -399,7 +408,7 @@ func (d *baseMaterialDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = base.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBase})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBase})
 				base.AnyAttr = append(base.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -420,7 +429,7 @@ func (d *meshDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resource.Mesh.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMesh})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMesh})
 			d.resource.Mesh.AnyAttr = append(d.resource.Mesh.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -462,7 +471,7 @@ func (d *verticesDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.mesh.Vertices.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrVertices})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrVertices})
 			d.mesh.Vertices.AnyAttr = append(d.mesh.Vertices.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -527,7 +536,7 @@ func (d *trianglesDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resource.Mesh.Triangles.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangles})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangles})
 			d.resource.Mesh.Triangles.AnyAttr = append(d.resource.Mesh.Triangles.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -591,7 +600,7 @@ func (d *triangleDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = t.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangle})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangle})
 				t.AnyAttr = append(t.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -634,7 +643,7 @@ func (d *objectDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.resource.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrObject})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrObject})
 				d.resource.AnyAttr = append(d.resource.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -709,7 +718,7 @@ func (d *componentsDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = components.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponents})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponents})
 			components.AnyAttr = append(components.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -754,7 +763,7 @@ func (d *componentDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = component.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponent})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponent})
 				component.AnyAttr = append(component.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
diff --git a/encoder.go b/encoder.go
index 50c07dc..7ca8814 100644
--- a/encoder.go
+++ b/encoder.go
@@ -218,6 +218,16 @@ func (e *Encoder) writeAttachements(att []Attachment) error {
 	return nil
 }
 
+// marshalAny encodes all the elements of an extension point.
+func marshalAny(x spec.Encoder, any spec.Any, start *xml.StartElement) error {
+	for _, ext := range any {
+		if err := ext.Marshal3MF(x, start); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (e *Encoder) modelToken(x spec.Encoder, m *Model, isRoot bool) (xml.StartElement, error) {
 	attrs := []xml.Attr{
 		{Name: xml.Name{Local: attrXmlns}, Value: Namespace},
@@ -259,7 +269,9 @@ func (e *Encoder) writeChildModel(x spec.Encoder, m *Model, child *ChildModel) e
 	xb := xml.StartElement{Name: xml.Name{Local: attrBuild}}
 	x.EncodeToken(xb)
 	x.EncodeToken(xb.End())
-	child.Any.Marshal3MF(x, &tm)
+	if err := marshalAny(x, child.Any, &tm); err != nil {
+		return err
+	}
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
@@ -276,7 +288,9 @@ func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 		return err
 	}
 	e.writeBuild(x, m)
-	m.Any.Marshal3MF(x, &tm)
+	if err := marshalAny(x, m.Any, &tm); err != nil {
+		return err
+	}
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
@@ -339,7 +353,9 @@ func (e *Encoder) writeResources(x spec.Encoder, rs *Resources) error {
 	}
 
 	for _, o := range rs.Objects {
-		e.writeObject(x, o)
+		if err := e.writeObject(x, o); err != nil {
+			return err
+		}
 		if err := x.Flush(); err != nil {
 			return err
 		}
@@ -373,7 +389,7 @@ func (e *Encoder) writeMetadata(x spec.Encoder, metadata []Metadata) {
 	}
 }
 
-func (e *Encoder) writeObject(x spec.Encoder, r *Object) {
+func (e *Encoder) writeObject(x spec.Encoder, r *Object) error {
 	xo := xml.StartElement{Name: xml.Name{Local: attrObject}, Attr: []xml.Attr{
 		{Name: xml.Name{Local: attrID}, Value: strconv.FormatUint(uint64(r.ID), 10)},
 	}}
@@ -410,11 +426,14 @@ func (e *Encoder) writeObject(x spec.Encoder, r *Object) {
 	}
 
 	if r.Mesh != nil {
-		e.writeMesh(x, r, r.Mesh)
+		if err := e.writeMesh(x, r, r.Mesh); err != nil {
+			return err
+		}
 	} else if r.Components != nil {
 		e.writeComponents(x, r.Components)
 	}
 	x.EncodeToken(xo.End())
+	return nil
 }
 
 func (e *Encoder) writeComponents(x spec.Encoder, comps *Components) {
@@ -516,7 +535,7 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 	x.EncodeToken(xvt.End())
 }
 
-func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) {
+func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) error {
 	xm := xml.StartElement{Name: xml.Name{Local: attrMesh}}
 	m.AnyAttr.Marshal3MF(x, &xm)
 	x.EncodeToken(xm)
@@ -524,8 +543,11 @@ func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) {
 	e.writeVertices(x, m)
 	e.writeTriangles(x, r, m)
 
-	m.Any.Marshal3MF(x, &xm)
+	if err := marshalAny(x, m.Any, &xm); err != nil {
+		return err
+	}
 	x.EncodeToken(xm.End())
+	return nil
 }
 
 func (r *BaseMaterials) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
diff --git a/spec/spec.go b/spec/spec.go
index e944ba0..9faae81 100644
--- a/spec/spec.go
+++ b/spec/spec.go
@@ -104,9 +104,7 @@ func (a AnyAttr) Marshal3MF(x Encoder, start *xml.StartElement) error {
 
 func NewAttrGroup(namespace string, parent xml.Name) AttrGroup {
 	if ext, ok := Load(namespace); ok {
-		if attr := ext.NewAttrGroup(parent); attr != nil {
-			return attr
-		}
+		return ext.NewAttrGroup(parent)
 	}
 	return &UnknownAttrs{
 		Space: namespace,
@@ -125,7 +123,7 @@ type Any []Marshaler
 
 func (e Any) Marshal3MF(x Encoder, start *xml.StartElement) error {
 	for _, ext := range e {
-		if err := ext.Marshal3MF(x, start); err != nil {
+		if err := ext.Marshal3MF(x, start); err == nil {
 			return err
 		}
 	}
-- 
2.43.0


From 79a136fa53324e0262ab1f382305674b55ab1f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 31/39] fix: write the namespaces that are in scope

The prefixes declared by an element were not known when its name was written
and were still used after its end, and names of undeclared namespaces lost
their namespace.
---
 internal/xml/printer.go | 124 ++++++++++++++++++++++++++++------------
 read.go                 |  14 +++++
 2 files changed, 103 insertions(+), 35 deletions(-)

diff --git a/internal/xml/printer.go b/internal/xml/printer.go
index 90f8300..3f0625f 100644
--- a/internal/xml/printer.go
+++ b/internal/xml/printer.go
@@ -3,41 +3,60 @@ package xml
 import (
 	"bufio"
 	"encoding/xml"
+	"strconv"
 )
 
 const (
 	nsXML = "http://www.w3.org/XML/1998/namespace"
 )
 
+// binding associates a prefix with a name space.
+// The prefix of the default name space is empty.
+type binding struct {
+	prefix, space string
+}
+
 type Printer struct {
 	*bufio.Writer
 	AutoClose      bool
 	SkipAttrEscape bool
-	attrPrefix     map[string]string // map name space -> prefix
+	bindings       []binding // The innermost last.
+	scopes         []int     // Number of bindings outside of each open element.
 }
 
-// createAttrPrefix finds the name space prefix attribute to use for the given name space,
-// defining a new prefix if necessary. It returns the prefix.
-func (p *Printer) createAttrPrefix(attr *xml.Attr) string {
-	if prefix := p.attrPrefix[attr.Name.Space]; prefix != "" {
-		return prefix
+// prefix returns the prefix that stands for the name space in the current scope.
+func (p *Printer) prefix(space string, isAttr bool) (string, bool) {
+	if space == nsXML {
+		return "xml", true
 	}
-	if attr.Name.Space == nsXML {
-		return "xml"
+	for i := len(p.bindings) - 1; i >= 0; i-- {
+		b := p.bindings[i]
+		if b.space == space && (b.prefix != "" || !isAttr) && p.lookup(b.prefix) == i {
+			return b.prefix, true
+		}
 	}
+	return "", false
+}
 
-	// Need to define a new name space.
-	if p.attrPrefix == nil {
-		p.attrPrefix = make(map[string]string)
+// lookup returns the index of the binding of prefix in the current scope, or -1.
+func (p *Printer) lookup(prefix string) int {
+	for i := len(p.bindings) - 1; i >= 0; i-- {
+		if p.bindings[i].prefix == prefix {
+			return i
+		}
 	}
+	return -1
+}
 
-	ns, prefix := attr.Name.Space, attr.Name.Local
-	if attr.Name.Space == "xmlns" {
-		ns, prefix = attr.Value, attr.Name.Local
+// declare binds a new prefix to the name space.
+func (p *Printer) declare(space string) string {
+	for i := 1; ; i++ {
+		prefix := "ns" + strconv.Itoa(i)
+		if p.lookup(prefix) == -1 {
+			p.bindings = append(p.bindings, binding{prefix, space})
+			return prefix
+		}
 	}
-	p.attrPrefix[ns] = prefix
-
-	return attr.Name.Space
 }
 
 // EscapeString writes to p the properly escaped XML equivalent
@@ -46,16 +65,43 @@ func (p *Printer) EscapeString(s string) {
 	xml.EscapeText(p, []byte(s))
 }
 
+func (p *Printer) writeName(prefix, local string) {
+	if prefix != "" {
+		p.WriteString(prefix)
+		p.WriteByte(':')
+	}
+	p.WriteString(local)
+}
+
+func (p *Printer) writeDeclaration(prefix, space string) {
+	p.WriteByte(' ')
+	p.writeName(xmlnsPrefix, prefix)
+	p.WriteString(`="`)
+	p.EscapeString(space)
+	p.WriteByte('"')
+}
+
 // WriteStart writes the given start element.
 func (p *Printer) WriteStart(start *xml.StartElement) {
-	p.WriteByte('<')
-	if start.Name.Space != "" {
-		if prefix := p.attrPrefix[start.Name.Space]; prefix != "" {
-			p.WriteString(prefix)
-			p.WriteByte(':')
+	outside := len(p.bindings)
+	for _, attr := range start.Attr {
+		if attr.Name.Space == xmlnsPrefix {
+			p.bindings = append(p.bindings, binding{attr.Name.Local, attr.Value})
+		} else if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix {
+			p.bindings = append(p.bindings, binding{"", attr.Value})
 		}
 	}
-	p.WriteString(start.Name.Local)
+
+	p.WriteByte('<')
+	if start.Name.Space == "" {
+		p.WriteString(start.Name.Local)
+	} else if prefix, ok := p.prefix(start.Name.Space, false); ok {
+		p.writeName(prefix, start.Name.Local)
+	} else {
+		prefix = p.declare(start.Name.Space)
+		p.writeName(prefix, start.Name.Local)
+		p.writeDeclaration(prefix, start.Name.Space)
+	}
 
 	// Attributes
 	for _, attr := range start.Attr {
@@ -63,12 +109,16 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 		if name.Local == "" {
 			continue
 		}
-		p.WriteByte(' ')
-		if name.Space != "" {
-			p.WriteString(p.createAttrPrefix(&attr))
-			p.WriteByte(':')
+		prefix := name.Space
+		if name.Space != "" && name.Space != xmlnsPrefix {
+			var ok bool
+			if prefix, ok = p.prefix(name.Space, true); !ok {
+				prefix = p.declare(name.Space)
+				p.writeDeclaration(prefix, name.Space)
+			}
 		}
-		p.WriteString(name.Local)
+		p.WriteByte(' ')
+		p.writeName(prefix, name.Local)
 		p.WriteString(`="`)
 		if p.SkipAttrEscape {
 			p.WriteString(attr.Value)
@@ -79,19 +129,23 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 	}
 	if p.AutoClose {
 		p.WriteByte('/')
+		p.bindings = p.bindings[:outside]
+	} else {
+		p.scopes = append(p.scopes, outside)
 	}
 	p.WriteByte('>')
 }
 
 func (p *Printer) WriteEnd(name xml.Name) {
-	p.WriteByte('<')
-	p.WriteByte('/')
+	p.WriteString("</")
+	var prefix string
 	if name.Space != "" {
-		if prefix := p.attrPrefix[name.Space]; prefix != "" {
-			p.WriteString(prefix)
-			p.WriteByte(':')
-		}
+		prefix, _ = p.prefix(name.Space, false)
 	}
-	p.WriteString(name.Local)
+	p.writeName(prefix, name.Local)
 	p.WriteByte('>')
+	if n := len(p.scopes) - 1; n >= 0 {
+		p.bindings = p.bindings[:p.scopes[n]]
+		p.scopes = p.scopes[:n]
+	}
 }
diff --git a/read.go b/read.go
index 9cfe402..d5093a7 100644
--- a/read.go
+++ b/read.go
@@ -104,6 +104,9 @@ func decodeModel(ctx context.Context, r io.Reader, model *Model, path string, is
 			} else {
 				stack = append(stack, stackElement{tmpDecoder, tp.Name, i})
 				currentDecoder = tmpDecoder
+				if _, ok := tmpDecoder.(spec.AppendTokenElementDecoder); !ok {
+					tp.Attr = withoutDefaultSpace(tp.Attr)
+				}
 				err := currentDecoder.Start(*(*[]spec.XMLAttr)(unsafe.Pointer(&tp.Attr)))
 				if err != nil {
 					for j := len(stack) - 1; j >= 0; j-- {
@@ -179,6 +182,17 @@ func decodeModel(ctx context.Context, r io.Reader, model *Model, path string, is
 	return &errs, err
 }
 
+// withoutDefaultSpace removes the declarations of the default name space,
+// which is always the core one in the encoded models.
+func withoutDefaultSpace(attrs []xml3mf.XMLAttr) []xml3mf.XMLAttr {
+	for i := len(attrs) - 1; i >= 0; i-- {
+		if name := attrs[i].Name; name.Space == "" && name.Local == attrXmlns {
+			attrs = append(attrs[:i], attrs[i+1:]...)
+		}
+	}
+	return attrs
+}
+
 // Decoder implements a 3mf file decoder.
 type Decoder struct {
 	Strict        bool
-- 
2.43.0


From db56aa607f3d4458b889f50b7cce3e4c7217cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 32/39] fix: read XML comments and CDATA sections

Packages that contain them were rejected, and the text of a metadata was
only what follows its last processing instruction.
---
 decoder.go          |  2 +-
 internal/xml/xml.go | 84 ++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 76 insertions(+), 10 deletions(-)

diff --git a/decoder.go b/decoder.go
index e5a6443..2ecdb84 100644
--- a/decoder.go
+++ b/decoder.go
@@ -205,7 +205,7 @@ func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
 }
 
 func (d *metadataDecoder) CharData(txt []byte) {
-	d.metadata.Value = string(txt)
+	d.metadata.Value += string(txt)
 }
 
 func (d *metadataDecoder) End() {
diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 2608fec..03dd15c 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -347,7 +347,7 @@ func (d *Decoder) RawToken() error {
 	if b != '<' {
 		// Text section.
 		d.ungetc(b)
-		data := d.text(-1)
+		data := d.text(-1, false)
 		if data == nil {
 			return d.err
 		}
@@ -407,6 +407,9 @@ func (d *Decoder) RawToken() error {
 			b0 = b
 		}
 		return nil
+
+	case '!':
+		return d.commentOrCDATA()
 	}
 
 	// Must be an open element like <a href="foo">
@@ -487,6 +490,58 @@ func (d *Decoder) RawToken() error {
 	return nil
 }
 
+// commentOrCDATA skips a comment or reads a CDATA section,
+// whose <! is already read. Document type declarations are not supported.
+func (d *Decoder) commentOrCDATA() error {
+	b, ok := d.getc()
+	if !ok {
+		d.mustNotEOF()
+		return d.err
+	}
+	opening := "CDATA["
+	if b == '-' {
+		opening = "-"
+	} else if b != '[' {
+		d.err = d.syntaxError("expected element name after <")
+		return d.err
+	}
+	for i := 0; i < len(opening); i++ {
+		if b, ok = d.getc(); !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		if b != opening[i] {
+			d.err = d.syntaxError("invalid sequence after <!")
+			return d.err
+		}
+	}
+	if opening == "CDATA[" {
+		data := d.text(-1, true)
+		if data == nil {
+			return d.err
+		}
+		if d.OnChar != nil {
+			d.OnChar(goxml.CharData(data))
+		}
+		return nil
+	}
+	var b0, b1 byte
+	for {
+		if b, ok = d.getc(); !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		if b0 == '-' && b1 == '-' {
+			if b != '>' {
+				d.err = d.syntaxError(`invalid sequence "--" not allowed in comments`)
+				return d.err
+			}
+			return nil
+		}
+		b0, b1 = b1, b
+	}
+}
+
 func (d *Decoder) attrval() []byte {
 	b, ok := d.getc()
 	if !ok {
@@ -495,7 +550,7 @@ func (d *Decoder) attrval() []byte {
 	}
 	// Handle quoted attribute values
 	if b == '"' || b == '\'' {
-		return d.text(int(b))
+		return d.text(int(b), false)
 	}
 	// Handle unquoted attribute values for strict parsers
 	d.err = d.syntaxError("unquoted or missing attribute value in element")
@@ -555,18 +610,29 @@ var entity = map[string]int{
 // If quote >= 0, we are in a quoted string and need to find the matching quote.
 // If cdata == true, we are in a <![CDATA[ section and need to find ]]>.
 // On failure return nil and leave the error in d.err.
-func (d *Decoder) text(quote int) []byte {
-	var b1 byte
+func (d *Decoder) text(quote int, cdata bool) []byte {
+	var b0, b1 byte
+	var trunc int
 	d.buf.Reset()
 Input:
 	for {
 		b, ok := d.getc()
 		if !ok {
+			if cdata {
+				d.mustNotEOF()
+				return nil
+			}
+			break Input
+		}
+
+		// A <![CDATA[ section ends with ]]>.
+		if cdata && b0 == ']' && b1 == ']' && b == '>' {
+			trunc = 2
 			break Input
 		}
 
 		// Stop reading text if we see a <.
-		if b == '<' {
+		if b == '<' && !cdata {
 			if quote >= 0 {
 				d.err = d.syntaxError("unescaped < inside quoted string")
 				return nil
@@ -577,7 +643,7 @@ Input:
 		if quote >= 0 && b == byte(quote) {
 			break Input
 		}
-		if b == '&' {
+		if b == '&' && !cdata {
 			// Read escaped character expression up to semicolon.
 			// XML in all its glory allows a document to define and use
 			// its own character names with <!ENTITY ...> directives.
@@ -657,7 +723,7 @@ Input:
 			if haveText {
 				d.buf.Truncate(before)
 				d.buf.Write([]byte(text))
-				b1 = 0
+				b0, b1 = 0, 0
 				continue Input
 			}
 			ent := string(d.buf.Bytes()[before:])
@@ -677,9 +743,9 @@ Input:
 			d.buf.WriteByte(b)
 		}
 
-		b1 = b
+		b0, b1 = b1, b
 	}
-	return d.buf.Bytes()
+	return d.buf.Bytes()[:d.buf.Len()-trunc]
 }
 
 // Get name space name: name with a : stuck in the middle.
-- 
2.43.0


From ab37c3f2ec585ed497b6f87c7e6e0fcdbfb4a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 33/39] fix: keep the namespaces that only a non-root model
 declares

Saving such a package again wrote the content of those namespaces without them.
---
 decoder.go | 50 +++++++++++++++++++++++++++++++++++++++++++-------
 read.go    | 20 ++++++++++++++------
 2 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/decoder.go b/decoder.go
index 2ecdb84..03ff58f 100644
--- a/decoder.go
+++ b/decoder.go
@@ -29,6 +29,7 @@ type modelDecoder struct {
 	isRoot     bool
 	path       string
 	extensions []Extension // Declared by the file being decoded.
+	declared   *[]Extension
 }
 
 func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
@@ -67,15 +68,19 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 }
 
 func (d *modelDecoder) Start(attrs []spec.XMLAttr) (err error) {
+	var requiredExts []string
 	if !d.isRoot {
 		for _, a := range attrs {
 			if a.Name.Space == attrXmlns {
 				d.extensions = append(d.extensions, Extension{Namespace: string(a.Value), LocalName: a.Name.Local})
+			} else if a.Name.Space == "" && a.Name.Local == attrReqExt {
+				requiredExts = strings.Fields(string(a.Value))
 			}
 		}
+		requireExtensions(d.extensions, requiredExts)
+		*d.declared = d.extensions
 		return
 	}
-	var requiredExts []string
 	for _, a := range attrs {
 		if a.Name.Space == "" {
 			switch a.Name.Local {
@@ -94,17 +99,46 @@ func (d *modelDecoder) Start(attrs []spec.XMLAttr) (err error) {
 		}
 	}
 
-	for _, local := range requiredExts {
-		for i := range d.model.Extensions {
-			ext := &d.model.Extensions[i]
+	requireExtensions(d.model.Extensions, requiredExts)
+	d.extensions = d.model.Extensions
+	return
+}
+
+func requireExtensions(extensions []Extension, required []string) {
+	for _, local := range required {
+		for i := range extensions {
+			ext := &extensions[i]
 			if ext.LocalName == local {
 				ext.IsRequired = true
 				break
 			}
 		}
 	}
-	d.extensions = d.model.Extensions
-	return
+}
+
+// addExtensions adds the extensions declared by a non-root file,
+// with another prefix if it already stands for another namespace.
+func addExtensions(model *Model, extensions []Extension) {
+	find := func(match func(*Extension) bool) *Extension {
+		for i := range model.Extensions {
+			if match(&model.Extensions[i]) {
+				return &model.Extensions[i]
+			}
+		}
+		return nil
+	}
+	for _, ext := range extensions {
+		same := find(func(e *Extension) bool { return e.Namespace == ext.Namespace })
+		if same != nil {
+			same.IsRequired = same.IsRequired || ext.IsRequired
+			continue
+		}
+		prefix := ext.LocalName
+		for i := 1; find(func(e *Extension) bool { return e.LocalName == ext.LocalName }) != nil; i++ {
+			ext.LocalName = prefix + strconv.Itoa(i)
+		}
+		model.Extensions = append(model.Extensions, ext)
+	}
 }
 
 func (d *modelDecoder) noCoreAttribute(a spec.XMLAttr) (err error) {
@@ -784,12 +818,14 @@ type topLevelDecoder struct {
 	model  *Model
 	isRoot bool
 	path   string
+
+	extensions []Extension // Declared by the file being decoded.
 }
 
 func (d *topLevelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	modelName := xml.Name{Space: Namespace, Local: attrModel}
 	if name == modelName {
-		child = &modelDecoder{model: d.model, isRoot: d.isRoot, path: d.path}
+		child = &modelDecoder{model: d.model, isRoot: d.isRoot, path: d.path, declared: &d.extensions}
 		i = -1
 	}
 	return
diff --git a/read.go b/read.go
index d5093a7..30d39a4 100644
--- a/read.go
+++ b/read.go
@@ -62,7 +62,7 @@ func (r *ReadCloser) Close() error {
 }
 
 func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string, isRoot, strict bool) error {
-	errs, err := decodeModel(ctx, r, model, path, isRoot, strict)
+	_, errs, err := decodeModel(ctx, r, model, path, isRoot, strict)
 	if err == nil && errs.Len() != 0 {
 		if strict || errs.Len() == 1 {
 			err = errs.Unwrap()
@@ -73,9 +73,10 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 	return err
 }
 
-// decodeModel decodes a model file and returns the list of recoverable errors
-// and the error, if any, that stopped the decoding.
-func decodeModel(ctx context.Context, r io.Reader, model *Model, path string, isRoot, strict bool) (*specerr.List, error) {
+// decodeModel decodes a model file and returns the extensions declared by
+// a non-root file, the list of recoverable errors and the error, if any,
+// that stopped the decoding.
+func decodeModel(ctx context.Context, r io.Reader, model *Model, path string, isRoot, strict bool) ([]Extension, *specerr.List, error) {
 	x := xml3mf.NewDecoder(r)
 	type stackElement struct {
 		decoder spec.ElementDecoder
@@ -179,7 +180,7 @@ func decodeModel(ctx context.Context, r io.Reader, model *Model, path string, is
 	if err == io.EOF {
 		err = nil
 	}
-	return &errs, err
+	return topDecoder.extensions, &errs, err
 }
 
 // withoutDefaultSpace removes the declarations of the default name space,
@@ -200,6 +201,8 @@ type Decoder struct {
 	flate         func(r io.Reader) io.ReadCloser
 	nonRootModels []packageFile
 	childErrors   []*specerr.List // Recoverable errors of nonRootModels.
+
+	childExtensions [][]Extension // Declared by nonRootModels.
 }
 
 // NewDecoder returns a new Decoder reading a 3mf file from r.
@@ -225,6 +228,9 @@ func (d *Decoder) DecodeContext(ctx context.Context, model *Model) error {
 		return err
 	}
 	err = d.processRootModel(ctx, rootFile, model)
+	for _, exts := range d.childExtensions {
+		addExtensions(model, exts)
+	}
 	for _, errs := range d.childErrors {
 		if errs.Len() == 0 {
 			continue
@@ -266,6 +272,7 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 		nonRootModelsCount = len(d.nonRootModels)
 	)
 	d.childErrors = make([]*specerr.List, nonRootModelsCount)
+	d.childExtensions = make([][]Extension, nonRootModelsCount)
 	wg.Add(nonRootModelsCount)
 	ctx, cancel := context.WithCancel(ctx)
 	defer cancel()
@@ -390,11 +397,12 @@ func (d *Decoder) readChildModel(ctx context.Context, i int, model *Model) error
 		return err
 	}
 	defer file.Close()
-	errs, err := decodeModel(ctx, file, model, attachment.Name(), false, d.Strict)
+	exts, errs, err := decodeModel(ctx, file, model, attachment.Name(), false, d.Strict)
 	if err == nil && d.Strict {
 		err = errs.Unwrap()
 	}
 	d.childErrors[i] = errs
+	d.childExtensions[i] = exts
 	return err
 }
 
-- 
2.43.0


From 2aa955886e8ce658c2d0ac6d5ef8a7a1d1a434f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 34/39] fix: resolve relative relationship targets

Targets like ../Metadata/a.png or ./a.model named no part, so what they
point to was lost, and a relationship with a relative target was written
again next to the one that the model implies.
---
 opc.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/opc.go b/opc.go
index 204dd93..108c636 100644
--- a/opc.go
+++ b/opc.go
@@ -5,6 +5,7 @@ package go3mf
 
 import (
 	"io"
+	"path"
 
 	"github.com/qmuntal/opc"
 )
@@ -16,7 +17,7 @@ type opcPart struct {
 
 func (o *opcPart) AddRelationship(r Relationship) {
 	for _, ro := range o.Part.Relationships {
-		if ro.Type == r.Type && ro.TargetURI == r.Path {
+		if ro.Type == r.Type && samePart(o.Part.Name, ro.TargetURI, r.Path) {
 			return
 		}
 	}
@@ -46,7 +47,7 @@ func (o *opcWriter) Create(name, contentType string) (packagePart, error) {
 
 func (o *opcWriter) AddRelationship(r Relationship) {
 	for _, ro := range o.w.Relationships {
-		if ro.Type == r.Type && ro.TargetURI == r.Path {
+		if ro.Type == r.Type && samePart("/", ro.TargetURI, r.Path) {
 			return
 		}
 	}
@@ -87,7 +88,7 @@ func (o *opcFile) ContentType() string {
 }
 
 func (o *opcFile) FindFileFromName(name string) (packageFile, bool) {
-	name = opc.ResolveRelationship(o.f.Name, name)
+	name = resolveRelationship(o.f.Name, name)
 	return findOPCFileFromName(name, o.r)
 }
 
@@ -114,12 +115,18 @@ func (o *opcReader) Relationships() []Relationship {
 }
 
 func (o *opcReader) FindFileFromName(name string) (packageFile, bool) {
-	name = opc.ResolveRelationship("/", name)
+	name = resolveRelationship("/", name)
 	return findOPCFileFromName(name, o.r)
 }
 
 func resolveRelationship(source, rel string) string {
-	return opc.ResolveRelationship(source, rel)
+	return path.Clean(opc.ResolveRelationship(source, rel))
+}
+
+// samePart reports whether two targets of relationships of source,
+// which can be relative, are the same part.
+func samePart(source, a, b string) bool {
+	return resolveRelationship(source, a) == resolveRelationship(source, b)
 }
 
 func findOPCFileFromName(name string, r *opc.Reader) (packageFile, bool) {
-- 
2.43.0


From f2be2a62c0410f1e58252875dae5ca924e6d0164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 35/39] fix: keep the meaning of the metadata names of a
 non-root model

Its prefixes can differ from those of the root model, or stand for other
namespaces there.
---
 decoder.go | 26 ++++++++++++++++++++------
 read.go    |  4 ++--
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/decoder.go b/decoder.go
index 03ff58f..2679e9a 100644
--- a/decoder.go
+++ b/decoder.go
@@ -118,7 +118,7 @@ func requireExtensions(extensions []Extension, required []string) {
 
 // addExtensions adds the extensions declared by a non-root file,
 // with another prefix if it already stands for another namespace.
-func addExtensions(model *Model, extensions []Extension) {
+func addExtensions(model *Model, child *ChildModel, extensions []Extension) {
 	find := func(match func(*Extension) bool) *Extension {
 		for i := range model.Extensions {
 			if match(&model.Extensions[i]) {
@@ -127,17 +127,31 @@ func addExtensions(model *Model, extensions []Extension) {
 		}
 		return nil
 	}
+	prefixes := make(map[string]string, len(extensions))
 	for _, ext := range extensions {
+		prefix := ext.LocalName
 		same := find(func(e *Extension) bool { return e.Namespace == ext.Namespace })
 		if same != nil {
 			same.IsRequired = same.IsRequired || ext.IsRequired
-			continue
+		} else {
+			for i := 1; find(func(e *Extension) bool { return e.LocalName == ext.LocalName }) != nil; i++ {
+				ext.LocalName = prefix + strconv.Itoa(i)
+			}
+			model.Extensions = append(model.Extensions, ext)
+			same = &ext
 		}
-		prefix := ext.LocalName
-		for i := 1; find(func(e *Extension) bool { return e.LocalName == ext.LocalName }) != nil; i++ {
-			ext.LocalName = prefix + strconv.Itoa(i)
+		prefixes[prefix] = same.LocalName
+	}
+	if child == nil {
+		return
+	}
+	for _, o := range child.Resources.Objects {
+		for i := range o.Metadata.Metadata {
+			name := &o.Metadata.Metadata[i].Name
+			if prefix, ok := prefixes[name.Space]; ok {
+				name.Space = prefix
+			}
 		}
-		model.Extensions = append(model.Extensions, ext)
 	}
 }
 
diff --git a/read.go b/read.go
index 30d39a4..3946b0d 100644
--- a/read.go
+++ b/read.go
@@ -228,8 +228,8 @@ func (d *Decoder) DecodeContext(ctx context.Context, model *Model) error {
 		return err
 	}
 	err = d.processRootModel(ctx, rootFile, model)
-	for _, exts := range d.childExtensions {
-		addExtensions(model, exts)
+	for i, exts := range d.childExtensions {
+		addExtensions(model, model.Childs[d.nonRootModels[i].Name()], exts)
 	}
 	for _, errs := range d.childErrors {
 		if errs.Len() == 0 {
-- 
2.43.0


From 517b69f73d6166ba54d1673f53d07fff0c296936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 36/39] fix: import STL files smaller than 300 bytes

A closed mesh of four facets takes 284 bytes in a binary STL, but files
with less than the 300 bytes inspected to detect the encoding were
rejected.
---
 importer/stl/decoder.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index fb36a63..a9a2aba 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -15,7 +15,10 @@ import (
 
 var checkEveryFaces = 1000
 
-const sizeOfHeader = 300 // minimum size of a closed mesh in binary is 384 bytes, corresponding to a triangle.
+const (
+	sizeOfHeader       = 300 // inspected to detect the encoding.
+	sizeOfBinaryHeader = 84  // no binary file, and no ascii file with a facet, is smaller.
+)
 
 // Decoder can decode a stl.
 // It supports automatic detection of binary or ascii stl encoding.
@@ -60,7 +63,7 @@ func (d *Decoder) DecodeContext(ctx context.Context, m *go3mf.Model) error {
 
 func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
 	buff, err := r.Peek(sizeOfHeader)
-	if err != nil {
+	if err != nil && (err != io.EOF || len(buff) < sizeOfBinaryHeader) {
 		return false, err
 	}
 	header := strings.ToLower(string(buff))
-- 
2.43.0


From 23c678b3d9f87ab77067a882351bf26121d41c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 37/39] fix: do not take a binary STL whose header starts with
 solid for an ascii one

The facets of a binary STL with such a header were silently dropped when
its first bytes were all lower than 128, as those of a cube with a side
of 2 are.
---
 importer/stl/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index a9a2aba..2b11326 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -72,7 +72,7 @@ func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
 
 func isASCII(s string) bool {
 	for i := 0; i < len(s); i++ {
-		if s[i] >= utf8.RuneSelf {
+		if s[i] == 0 || s[i] >= utf8.RuneSelf { // The size of a binary file has a zero byte.
 			return false
 		}
 	}
-- 
2.43.0


From 5bb672da8466a5c5c67ec069a3a5f67f3aea5414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:29 +0000
Subject: [PATCH 38/39] fix: compute the bounding box of objects with recursive
 components

A component that refers back to an object that contains it made
BoundingBox recurse until the stack overflowed, which ends the process.
---
 core.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core.go b/core.go
index cbb00cc..6ac7f31 100644
--- a/core.go
+++ b/core.go
@@ -246,7 +246,7 @@ func (m *Model) BoundingBox() Box {
 			defer wg.Done()
 			item := m.Build.Items[i]
 			if o, ok := m.FindObject(item.ObjectPath(), item.ObjectID); ok {
-				if ibox, ok := o.boundingBox(m, item.ObjectPath()); ok {
+				if ibox, ok := o.boundingBox(m, item.ObjectPath(), nil); ok {
 					mu.Lock()
 					box = box.extend(item.Transform.MulBox(ibox))
 					found = true
@@ -416,18 +416,25 @@ type Object struct {
 }
 
 // boundingBox returns the bounding box of the object, if it has any extent.
-func (o *Object) boundingBox(m *Model, path string) (box Box, found bool) {
+// The components that refer back to one of the parents are ignored.
+func (o *Object) boundingBox(m *Model, path string, parents []*Object) (box Box, found bool) {
 	if o.Mesh != nil {
 		return o.Mesh.BoundingBox(), len(o.Mesh.Vertices.Vertex) != 0
 	}
 	if o.Components == nil {
 		return Box{}, false
 	}
+	for _, p := range parents {
+		if p == o {
+			return Box{}, false
+		}
+	}
+	parents = append(parents, o)
 	box = newLimitBox()
 	for _, c := range o.Components.Component {
 		cpath := c.ObjectPath(path)
 		if obj, ok := m.FindObject(cpath, c.ObjectID); ok {
-			if cbox, ok := obj.boundingBox(m, cpath); ok {
+			if cbox, ok := obj.boundingBox(m, cpath, parents); ok {
 				box = box.extend(c.Transform.MulBox(cbox))
 				found = true
 			}
-- 
2.43.0


From 58343117117d8587f693a60d6d258dbee7599b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:05 +0000
Subject: [PATCH 39/39] fix: report extension attributes that cannot be written

---
 encoder.go | 100 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 74 insertions(+), 26 deletions(-)

diff --git a/encoder.go b/encoder.go
index 7ca8814..d48db40 100644
--- a/encoder.go
+++ b/encoder.go
@@ -254,12 +254,17 @@ func (e *Encoder) modelToken(x spec.Encoder, m *Model, isRoot bool) (xml.StartEl
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: attrReqExt}, Value: strings.Join(exts, " ")})
 	}
 	tm := xml.StartElement{Name: xml.Name{Local: attrModel}, Attr: attrs}
-	m.AnyAttr.Marshal3MF(x, &tm)
+	if err := m.AnyAttr.Marshal3MF(x, &tm); err != nil {
+		return tm, err
+	}
 	return tm, nil
 }
 
 func (e *Encoder) writeChildModel(x spec.Encoder, m *Model, child *ChildModel) error {
-	tm, _ := e.modelToken(x, m, false) // error already checked before
+	tm, err := e.modelToken(x, m, false)
+	if err != nil {
+		return err
+	}
 	x.EncodeToken(tm)
 
 	if err := e.writeResources(x, &child.Resources); err != nil {
@@ -287,7 +292,9 @@ func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 	if err := e.writeResources(x, &m.Resources); err != nil {
 		return err
 	}
-	e.writeBuild(x, m)
+	if err := e.writeBuild(x, m); err != nil {
+		return err
+	}
 	if err := marshalAny(x, m.Any, &tm); err != nil {
 		return err
 	}
@@ -295,17 +302,22 @@ func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 	return x.Flush()
 }
 
-func (e *Encoder) writeMetadataGroup(x spec.Encoder, m MetadataGroup) {
+func (e *Encoder) writeMetadataGroup(x spec.Encoder, m MetadataGroup) error {
 	xm := xml.StartElement{Name: xml.Name{Local: attrMetadataGroup}}
-	m.AnyAttr.Marshal3MF(x, &xm)
+	if err := m.AnyAttr.Marshal3MF(x, &xm); err != nil {
+		return err
+	}
 	x.EncodeToken(xm)
 	e.writeMetadata(x, m.Metadata)
 	x.EncodeToken(xm.End())
+	return nil
 }
 
-func (e *Encoder) writeBuild(x spec.Encoder, m *Model) {
+func (e *Encoder) writeBuild(x spec.Encoder, m *Model) error {
 	xb := xml.StartElement{Name: xml.Name{Local: attrBuild}}
-	m.Build.AnyAttr.Marshal3MF(x, &xb)
+	if err := m.Build.AnyAttr.Marshal3MF(x, &xb); err != nil {
+		return err
+	}
 	x.EncodeToken(xb)
 	x.SetAutoClose(true)
 	for _, item := range m.Build.Items {
@@ -322,11 +334,15 @@ func (e *Encoder) writeBuild(x spec.Encoder, m *Model) {
 				Name: xml.Name{Local: attrPartNumber}, Value: item.PartNumber,
 			})
 		}
-		item.AnyAttr.Marshal3MF(x, &xi)
+		if err := item.AnyAttr.Marshal3MF(x, &xi); err != nil {
+			return err
+		}
 		if len(item.Metadata.Metadata) != 0 {
 			x.SetAutoClose(false)
 			x.EncodeToken(xi)
-			e.writeMetadataGroup(x, item.Metadata)
+			if err := e.writeMetadataGroup(x, item.Metadata); err != nil {
+				return err
+			}
 			x.EncodeToken(xi.End())
 			x.SetAutoClose(true)
 		} else {
@@ -335,11 +351,14 @@ func (e *Encoder) writeBuild(x spec.Encoder, m *Model) {
 	}
 	x.SetAutoClose(false)
 	x.EncodeToken(xb.End())
+	return nil
 }
 
 func (e *Encoder) writeResources(x spec.Encoder, rs *Resources) error {
 	xt := xml.StartElement{Name: xml.Name{Local: attrResources}}
-	rs.AnyAttr.Marshal3MF(x, &xt)
+	if err := rs.AnyAttr.Marshal3MF(x, &xt); err != nil {
+		return err
+	}
 	x.EncodeToken(xt)
 	for _, r := range rs.Assets {
 		if r, ok := r.(spec.Marshaler); ok {
@@ -418,11 +437,15 @@ func (e *Encoder) writeObject(x spec.Encoder, r *Object) error {
 			})
 		}
 	}
-	r.AnyAttr.Marshal3MF(x, &xo)
+	if err := r.AnyAttr.Marshal3MF(x, &xo); err != nil {
+		return err
+	}
 	x.EncodeToken(xo)
 
 	if len(r.Metadata.Metadata) != 0 {
-		e.writeMetadataGroup(x, r.Metadata)
+		if err := e.writeMetadataGroup(x, r.Metadata); err != nil {
+			return err
+		}
 	}
 
 	if r.Mesh != nil {
@@ -430,15 +453,19 @@ func (e *Encoder) writeObject(x spec.Encoder, r *Object) error {
 			return err
 		}
 	} else if r.Components != nil {
-		e.writeComponents(x, r.Components)
+		if err := e.writeComponents(x, r.Components); err != nil {
+			return err
+		}
 	}
 	x.EncodeToken(xo.End())
 	return nil
 }
 
-func (e *Encoder) writeComponents(x spec.Encoder, comps *Components) {
+func (e *Encoder) writeComponents(x spec.Encoder, comps *Components) error {
 	xcs := xml.StartElement{Name: xml.Name{Local: attrComponents}}
-	comps.AnyAttr.Marshal3MF(x, &xcs)
+	if err := comps.AnyAttr.Marshal3MF(x, &xcs); err != nil {
+		return err
+	}
 	x.EncodeToken(xcs)
 	x.SetAutoClose(true)
 	for _, c := range comps.Component {
@@ -450,16 +477,21 @@ func (e *Encoder) writeComponents(x spec.Encoder, comps *Components) {
 		if c.HasTransform() {
 			xt.Attr = append(xt.Attr, xml.Attr{Name: xml.Name{Local: attrTransform}, Value: c.Transform.String()})
 		}
-		c.AnyAttr.Marshal3MF(x, &xt)
+		if err := c.AnyAttr.Marshal3MF(x, &xt); err != nil {
+			return err
+		}
 		x.EncodeToken(xt)
 	}
 	x.SetAutoClose(false)
 	x.EncodeToken(xcs.End())
+	return nil
 }
 
-func (e *Encoder) writeVertices(x spec.Encoder, m *Mesh) {
+func (e *Encoder) writeVertices(x spec.Encoder, m *Mesh) error {
 	xvs := xml.StartElement{Name: xml.Name{Local: attrVertices}}
-	m.Vertices.AnyAttr.Marshal3MF(x, &xvs)
+	if err := m.Vertices.AnyAttr.Marshal3MF(x, &xvs); err != nil {
+		return err
+	}
 	x.EncodeToken(xvs)
 	prec := x.FloatPresicion()
 	start := xml.StartElement{
@@ -481,11 +513,14 @@ func (e *Encoder) writeVertices(x spec.Encoder, m *Mesh) {
 	x.SetSkipAttrEscape(false)
 	x.SetAutoClose(false)
 	x.EncodeToken(xvs.End())
+	return nil
 }
 
-func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
+func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) error {
 	xvt := xml.StartElement{Name: xml.Name{Local: attrTriangles}}
-	m.Triangles.AnyAttr.Marshal3MF(x, &xvt)
+	if err := m.Triangles.AnyAttr.Marshal3MF(x, &xvt); err != nil {
+		return err
+	}
 	x.EncodeToken(xvt)
 	start := xml.StartElement{
 		Name: xml.Name{Local: attrTriangle},
@@ -522,7 +557,9 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 			}
 		}
 		if len(t.AnyAttr) != 0 {
-			t.AnyAttr.Marshal3MF(x, &start)
+			if err := t.AnyAttr.Marshal3MF(x, &start); err != nil {
+				return err
+			}
 			x.SetSkipAttrEscape(false)
 			x.EncodeToken(start)
 			x.SetSkipAttrEscape(true)
@@ -533,15 +570,22 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 	x.SetSkipAttrEscape(false)
 	x.SetAutoClose(false)
 	x.EncodeToken(xvt.End())
+	return nil
 }
 
 func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) error {
 	xm := xml.StartElement{Name: xml.Name{Local: attrMesh}}
-	m.AnyAttr.Marshal3MF(x, &xm)
+	if err := m.AnyAttr.Marshal3MF(x, &xm); err != nil {
+		return err
+	}
 	x.EncodeToken(xm)
 
-	e.writeVertices(x, m)
-	e.writeTriangles(x, r, m)
+	if err := e.writeVertices(x, m); err != nil {
+		return err
+	}
+	if err := e.writeTriangles(x, r, m); err != nil {
+		return err
+	}
 
 	if err := marshalAny(x, m.Any, &xm); err != nil {
 		return err
@@ -554,7 +598,9 @@ func (r *BaseMaterials) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
 	xt := xml.StartElement{Name: xml.Name{Local: attrBaseMaterials}, Attr: []xml.Attr{
 		{Name: xml.Name{Local: attrID}, Value: strconv.FormatUint(uint64(r.ID), 10)},
 	}}
-	r.AnyAttr.Marshal3MF(x, &xt)
+	if err := r.AnyAttr.Marshal3MF(x, &xt); err != nil {
+		return err
+	}
 	x.EncodeToken(xt)
 	x.SetAutoClose(true)
 	for _, ma := range r.Materials {
@@ -565,7 +611,9 @@ func (r *BaseMaterials) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
 				{Name: xml.Name{Local: attrDisplayColor}, Value: spec.FormatRGBA(ma.Color)},
 			},
 		}
-		ma.AnyAttr.Marshal3MF(x, &start)
+		if err := ma.AnyAttr.Marshal3MF(x, &start); err != nil {
+			return err
+		}
 		x.EncodeToken(start)
 	}
 	x.SetAutoClose(false)
-- 
2.43.0

