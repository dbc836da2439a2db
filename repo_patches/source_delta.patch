From bdc24328868a0ec45659de01a578a6e0c7446563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 01/45] fix: track element nesting and keep text of elements
 without a decoder

Elements that have no decoder of their own were not counted, so a nested
element with the name of the current one closed it early: the rest of its
content was lost or attributed to the wrong parent, and a nested <model>
made the decoder panic. Text of unknown elements was always dropped because
of a shadowed variable.
---
 read.go | 48 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/read.go b/read.go
index 9a474e0..a6bdd4e 100644
--- a/read.go
+++ b/read.go
@@ -72,17 +72,22 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 
 	var (
 		currentDecoder spec.ElementDecoder
-		currentName    xml.Name
 		errs           specerr.List
+		// depth counts the open elements below currentDecoder that have no decoder of their own.
+		depth int
 	)
-	currentDecoder = &topLevelDecoder{isRoot: isRoot, model: model, path: path}
+	topDecoder := &topLevelDecoder{isRoot: isRoot, model: model, path: path}
+	currentDecoder = topDecoder
 	var err error
 	x.OnStart = func(tp xml3mf.StartElement) {
 		if childDecoder, ok := currentDecoder.(spec.ChildElementDecoder); ok {
+			if depth > 0 {
+				depth++
+				return
+			}
 			i, tmpDecoder := childDecoder.Child(tp.Name)
 			if tmpDecoder != nil {
 				stack = append(stack, stackElement{tmpDecoder, tp.Name, i})
-				currentName = tp.Name
 				currentDecoder = tmpDecoder
 				err := currentDecoder.Start(*(*[]spec.XMLAttr)(unsafe.Pointer(&tp.Attr)))
 				if err != nil {
@@ -92,6 +97,8 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 					}
 					specerr.Append(&errs, err)
 				}
+			} else {
+				depth++
 			}
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
 			var xattrs []xml.Attr
@@ -105,26 +112,37 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 				Name: tp.Name,
 				Attr: xattrs,
 			})
+			depth++
+		} else {
+			depth++
 		}
 	}
 	x.OnEnd = func(tp xml.EndElement) {
-		if currentName == tp.Name {
-			currentDecoder.End()
-			stack = stack[:len(stack)-1]
-			if len(stack) > 0 {
-				element := stack[len(stack)-1]
-				currentDecoder = element.decoder
-				currentName = element.name
+		if depth > 0 {
+			depth--
+			if _, ok := currentDecoder.(spec.ChildElementDecoder); ok {
+				return
 			}
-		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp)
+			if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
+				appendDecoder.AppendToken(tp)
+			}
+			return
+		}
+		currentDecoder.End()
+		stack = stack[:len(stack)-1]
+		currentDecoder = topDecoder
+		if len(stack) > 0 {
+			currentDecoder = stack[len(stack)-1].decoder
 		}
 	}
 	x.OnChar = func(tp xml.CharData) {
-		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
-			currentDecoder.CharData(tp)
+		if charDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok && depth == 0 {
+			charDecoder.CharData(tp)
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp)
+			// Whitespace between elements is not significant.
+			if len(bytes.TrimSpace(tp)) > 0 {
+				appendDecoder.AppendToken(tp.Copy()) // the tokenizer reuses the buffer behind tp
+			}
 		}
 	}
 	var i int
-- 
2.43.0


From 67a0fb1981e862d22181656ce5b380d512e76a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 02/45] fix: keep attributes that a registered extension does
 not support

spec.NewAttrGroup returns nil when the registered spec has no attribute
group for the parent element, and every caller dereferenced it.
---
 decoder.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/decoder.go b/decoder.go
index 7e37521..e56b406 100644
--- a/decoder.go
+++ b/decoder.go
@@ -14,6 +14,15 @@ import (
 	"github.com/hpinc/go3mf/spec"
 )
 
+// newAttrGroup returns a group for the attributes of namespace in parent. They are
+// kept as unknown attributes if the namespace is registered but does not support them.
+func newAttrGroup(namespace string, parent xml.Name) spec.AttrGroup {
+	if attr := spec.NewAttrGroup(namespace, parent); attr != nil {
+		return attr
+	}
+	return &spec.UnknownAttrs{Space: namespace}
+}
+
 type modelDecoder struct {
 	baseDecoder
 	model  *Model
@@ -100,7 +109,7 @@ func (d *modelDecoder) noCoreAttribute(a spec.XMLAttr) (err error) {
 	default:
 		var attr spec.AttrGroup
 		if attr = d.model.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrModel})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrModel})
 			d.model.AnyAttr = append(d.model.AnyAttr, attr)
 		}
 		err = specerr.Append(err, attr.Unmarshal3MFAttr(a))
@@ -127,7 +136,7 @@ func (d *metadataGroupDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.metadatas.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMetadataGroup})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMetadataGroup})
 			d.metadatas.AnyAttr = append(d.metadatas.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -204,7 +213,7 @@ func (d *buildDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.build.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBuild})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBuild})
 			d.build.AnyAttr = append(d.build.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -239,7 +248,7 @@ func (d *buildItemDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.item.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrItem})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrItem})
 				d.item.AnyAttr = append(d.item.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -279,7 +288,7 @@ func (d *resourceDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resources.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrResources})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrResources})
 			d.resources.AnyAttr = append(d.resources.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -345,7 +354,7 @@ func (d *baseMaterialsDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.resource.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBaseMaterials})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBaseMaterials})
 				d.resource.AnyAttr = append(d.resource.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -379,7 +388,7 @@ func (d *baseMaterialDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = base.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBase})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrBase})
 				base.AnyAttr = append(base.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -400,7 +409,7 @@ func (d *meshDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resource.Mesh.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMesh})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrMesh})
 			d.resource.Mesh.AnyAttr = append(d.resource.Mesh.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -440,7 +449,7 @@ func (d *verticesDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.mesh.Vertices.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrVertices})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrVertices})
 			d.mesh.Vertices.AnyAttr = append(d.mesh.Vertices.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -505,7 +514,7 @@ func (d *trianglesDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = d.resource.Mesh.Triangles.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangles})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangles})
 			d.resource.Mesh.Triangles.AnyAttr = append(d.resource.Mesh.Triangles.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -569,7 +578,7 @@ func (d *triangleDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = t.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangle})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrTriangle})
 				t.AnyAttr = append(t.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -612,7 +621,7 @@ func (d *objectDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = d.resource.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrObject})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrObject})
 				d.resource.AnyAttr = append(d.resource.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -687,7 +696,7 @@ func (d *componentsDecoder) Start(attrs []spec.XMLAttr) error {
 	for _, a := range attrs {
 		var attr spec.AttrGroup
 		if attr = components.AnyAttr.Get(a.Name.Space); attr == nil {
-			attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponents})
+			attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponents})
 			components.AnyAttr = append(components.AnyAttr, attr)
 		}
 		errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
@@ -732,7 +741,7 @@ func (d *componentDecoder) Start(attrs []spec.XMLAttr) error {
 		} else {
 			var attr spec.AttrGroup
 			if attr = component.AnyAttr.Get(a.Name.Space); attr == nil {
-				attr = spec.NewAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponent})
+				attr = newAttrGroup(a.Name.Space, xml.Name{Space: Namespace, Local: attrComponent})
 				component.AnyAttr = append(component.AnyAttr, attr)
 			}
 			errs = specerr.Append(errs, attr.Unmarshal3MFAttr(a))
-- 
2.43.0


From 9b0b16d4ec513de44b29a03db21e288994bcc189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 03/45] fix: encode every Any element

Marshaling stopped after the first element that was encoded without error.
---
 encoder.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/encoder.go b/encoder.go
index 39c84f7..0fd7d6e 100644
--- a/encoder.go
+++ b/encoder.go
@@ -258,7 +258,7 @@ func (e *Encoder) writeChildModel(x spec.Encoder, m *Model, child *ChildModel) e
 	xb := xml.StartElement{Name: xml.Name{Local: attrBuild}}
 	x.EncodeToken(xb)
 	x.EncodeToken(xb.End())
-	child.Any.Marshal3MF(x, &tm)
+	marshalAny(x, child.Any, &tm)
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
@@ -275,11 +275,21 @@ func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 		return err
 	}
 	e.writeBuild(x, m)
-	m.Any.Marshal3MF(x, &tm)
+	marshalAny(x, m.Any, &tm)
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
 
+// marshalAny encodes every element of an extension point.
+func marshalAny(x spec.Encoder, elements spec.Any, start *xml.StartElement) error {
+	for _, ext := range elements {
+		if err := ext.Marshal3MF(x, start); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (e *Encoder) writeMetadataGroup(x spec.Encoder, m MetadataGroup) {
 	xm := xml.StartElement{Name: xml.Name{Local: attrMetadataGroup}}
 	m.AnyAttr.Marshal3MF(x, &xm)
@@ -515,7 +525,7 @@ func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) {
 	e.writeVertices(x, m)
 	e.writeTriangles(x, r, m)
 
-	m.Any.Marshal3MF(x, &xm)
+	marshalAny(x, m.Any, &xm)
 	x.EncodeToken(xm.End())
 }
 
-- 
2.43.0


From 28c9cdc179a9ad406456c9bdf27a09723833ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 04/45] fix: ignore extension elements that are not assets or
 marshalers in that place

---
 decoder.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/decoder.go b/decoder.go
index e56b406..6a645d4 100644
--- a/decoder.go
+++ b/decoder.go
@@ -50,9 +50,11 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		}
 	} else {
 		dec := spec.NewElementDecoder(name)
-		child = dec
 		if dec != nil {
-			d.model.Any = append(d.model.Any, dec.Element().(spec.Marshaler))
+			if m, ok := dec.Element().(spec.Marshaler); ok {
+				child = dec
+				d.model.Any = append(d.model.Any, m)
+			}
 		}
 		i = -1
 	}
@@ -309,9 +311,12 @@ func (d *resourceDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder
 	} else if ext, ok := spec.Load(name.Space); ok {
 		dec := ext.NewElementDecoder(name)
 		i = len(d.resources.Assets)
-		child = dec
 		if dec != nil {
-			d.resources.Assets = append(d.resources.Assets, dec.Element().(Asset))
+			// ignore elements that are supported by the extension but are not assets
+			if asset, ok := dec.Element().(Asset); ok {
+				child = dec
+				d.resources.Assets = append(d.resources.Assets, asset)
+			}
 		}
 	} else {
 		child = &unknownAssetDecoder{UnknownTokensDecoder: *spec.NewUnknownDecoder(name), resources: d.resources}
@@ -428,9 +433,11 @@ func (d *meshDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		}
 	} else {
 		dec := spec.NewElementDecoder(name)
-		child = dec
 		if dec != nil {
-			d.resource.Mesh.Any = append(d.resource.Mesh.Any, dec.Element().(spec.Marshaler))
+			if m, ok := dec.Element().(spec.Marshaler); ok {
+				child = dec
+				d.resource.Mesh.Any = append(d.resource.Mesh.Any, m)
+			}
 		}
 		i = -1
 	}
-- 
2.43.0


From 6ed757f53dbdc84d0195bb419f5aef5688ccbdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 05/45] fix: decode the content of a model part into that part

---
 decoder.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 6a645d4..b26d159 100644
--- a/decoder.go
+++ b/decoder.go
@@ -34,9 +34,14 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace {
 		switch name.Local {
 		case attrResources:
-			resources, _ := d.model.FindResources(d.path)
-			child = &resourceDecoder{resources: resources, model: d.model}
-			i = -1
+			resources, ok := &d.model.Resources, true
+			if !d.isRoot {
+				resources, ok = d.model.FindResources(d.path)
+			}
+			if ok {
+				child = &resourceDecoder{resources: resources, model: d.model}
+				i = -1
+			}
 		case attrBuild:
 			if d.isRoot {
 				child = &buildDecoder{build: &d.model.Build, model: d.model}
@@ -53,7 +58,13 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		if dec != nil {
 			if m, ok := dec.Element().(spec.Marshaler); ok {
 				child = dec
-				d.model.Any = append(d.model.Any, m)
+				any := &d.model.Any
+				if !d.isRoot {
+					if c, ok := d.model.Childs[d.path]; ok {
+						any = &c.Any
+					}
+				}
+				*any = append(*any, m)
 			}
 		}
 		i = -1
-- 
2.43.0


From 886530cefb5b7846777b01e98a7a15e32a5eefe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 06/45] fix: report the errors of the model parts that failed

---
 read.go | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/read.go b/read.go
index a6bdd4e..1db1a15 100644
--- a/read.go
+++ b/read.go
@@ -236,6 +236,7 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 		nonRootModelsCount = len(d.nonRootModels)
 	)
 	wg.Add(nonRootModelsCount)
+	parentCtx, partErrs := ctx, make([]error, nonRootModelsCount)
 	ctx, cancel := context.WithCancel(ctx)
 	defer cancel()
 	for i := 0; i < nonRootModelsCount; i++ {
@@ -243,16 +244,44 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 			defer wg.Done()
 			err := d.readChildModel(ctx, i, model)
 			if err != nil {
-				errs = err
-				cancel()
+				partErrs[i] = err
+				if d.Strict || !isContentError(err) {
+					cancel()
+				}
 			}
 		}(i)
 	}
 	wg.Wait()
-	if errs != nil {
-		return errs
+	if err := parentCtx.Err(); err != nil {
+		return err
 	}
-	return nil
+	for _, err := range partErrs {
+		if err == nil || err == context.Canceled { // stopped because another part failed
+			continue
+		}
+		if d.Strict || !isContentError(err) {
+			return err
+		}
+		errs = appendContentError(errs, err)
+	}
+	return errs
+}
+
+// isContentError reports whether err only describes values that could not be parsed,
+// meaning that the rest of the document has been decoded.
+func isContentError(err error) bool {
+	switch err.(type) {
+	case *specerr.Error, *specerr.List:
+		return true
+	}
+	return false
+}
+
+func appendContentError(errs, err error) error {
+	if errs == nil {
+		return err
+	}
+	return specerr.Append(errs, err)
 }
 
 func (d *Decoder) processOPC(model *Model) (packageFile, error) {
@@ -330,13 +359,7 @@ func (d *Decoder) readChildModel(ctx context.Context, i int, model *Model) error
 		return err
 	}
 	defer file.Close()
-	err = decodeModelFile(ctx, file, model, attachment.Name(), false, d.Strict)
-	select {
-	case <-ctx.Done():
-		err = ctx.Err()
-	default: // Default is must to avoid blocking
-	}
-	return err
+	return decodeModelFile(ctx, file, model, attachment.Name(), false, d.Strict)
 }
 
 func copyFile(file packageFile) (io.Reader, error) {
-- 
2.43.0


From 9ccd7be9bcbd1147d9cbb48317a4d110f82cca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 07/45] fix: decode the root model before the models that
 depend on it

---
 read.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 1db1a15..99af3e9 100644
--- a/read.go
+++ b/read.go
@@ -203,10 +203,18 @@ func (d *Decoder) DecodeContext(ctx context.Context, model *Model) error {
 	if err != nil {
 		return err
 	}
+	// The root model goes first, the other models use the namespaces it declares.
+	rootErr := d.processRootModel(ctx, rootFile, model)
+	if rootErr != nil && (d.Strict || !isContentError(rootErr)) {
+		return rootErr
+	}
 	if err := d.processNonRootModels(ctx, model); err != nil {
-		return err
+		if !isContentError(err) {
+			return err
+		}
+		return appendContentError(rootErr, err)
 	}
-	return d.processRootModel(ctx, rootFile, model)
+	return rootErr
 }
 
 // UnmarshalModel fills a model with the data of a root model file
-- 
2.43.0


From 28e3e5b84e087535172a2dbc61b7218bf3d30921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 08/45] fix: decode each model part once

---
 read.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/read.go b/read.go
index 99af3e9..d859a0c 100644
--- a/read.go
+++ b/read.go
@@ -296,6 +296,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	if err := d.p.Open(d.flate); err != nil {
 		return nil, err
 	}
+	d.nonRootModels = nil
 	var rootFile packageFile
 	for _, r := range d.p.Relationships() {
 		if r.Type == RelType3DModel {
@@ -325,6 +326,9 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
 			if isRoot {
 				if rel.Type == RelType3DModel {
+					if file.Name() == modelFile.Name() || d.isNonRootModel(file.Name()) {
+						continue // each part is decoded once
+					}
 					d.nonRootModels = append(d.nonRootModels, file)
 					if model.Childs == nil {
 						model.Childs = make(map[string]*ChildModel)
@@ -344,6 +348,15 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 	}
 }
 
+func (d *Decoder) isNonRootModel(name string) bool {
+	for _, file := range d.nonRootModels {
+		if file.Name() == name {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *Decoder) addAttachment(attachments []Attachment, file packageFile) []Attachment {
 	for _, att := range attachments {
 		if strings.EqualFold(att.Path, file.Name()) {
-- 
2.43.0


From 724a18fbe7558758173f3cd08a3d12f95729dbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 09/45] fix: do not forget read errors while tokenizing

---
 internal/xml/xml.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 2608fec..ee61233 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -32,9 +32,7 @@ const maxConsecutiveEmptyReads = 100
 const defaultBufSize = 4096
 
 func (b *bufioReader) readErr() error {
-	err := b.err
-	b.err = nil
-	return err
+	return b.err // sticky, so no caller can miss it
 }
 
 func (b *bufioReader) ReadByte() (byte, error) {
-- 
2.43.0


From cae2caee64d2f1d4f37c43a4d518a9983be87581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 10/45] fix: accept comments and CDATA sections

---
 decoder.go          |  2 +-
 internal/xml/xml.go | 84 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 85 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index b26d159..0e18169 100644
--- a/decoder.go
+++ b/decoder.go
@@ -200,7 +200,7 @@ func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
 }
 
 func (d *metadataDecoder) CharData(txt []byte) {
-	d.metadata.Value = string(txt)
+	d.metadata.Value += string(txt) // the text may come in several chunks
 }
 
 func (d *metadataDecoder) End() {
diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index ee61233..c76dcaa 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -405,6 +405,21 @@ func (d *Decoder) RawToken() error {
 			b0 = b
 		}
 		return nil
+
+	case '!':
+		// <!: Comment or character data section.
+		if b, ok = d.getc(); !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		switch b {
+		case '-':
+			return d.comment()
+		case '[':
+			return d.cdata()
+		}
+		d.err = d.syntaxError("invalid sequence <! not part of a comment or a CDATA section")
+		return d.err
 	}
 
 	// Must be an open element like <a href="foo">
@@ -485,6 +500,75 @@ func (d *Decoder) RawToken() error {
 	return nil
 }
 
+// comment skips a comment. The <!- has been already read.
+func (d *Decoder) comment() error {
+	b, ok := d.getc()
+	if !ok {
+		d.mustNotEOF()
+		return d.err
+	}
+	if b != '-' {
+		d.err = d.syntaxError("invalid sequence <!- not part of <!--")
+		return d.err
+	}
+	var b0, b1 byte
+	for {
+		if b, ok = d.getc(); !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		if b0 == '-' && b1 == '-' {
+			if b != '>' {
+				d.err = d.syntaxError(`invalid sequence "--" not allowed in comments`)
+				return d.err
+			}
+			return nil
+		}
+		b0, b1 = b1, b
+	}
+}
+
+// cdata reads a character data section. The <![ has been already read.
+func (d *Decoder) cdata() error {
+	const start = "CDATA["
+	for i := 0; i < len(start); i++ {
+		b, ok := d.getc()
+		if !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		if b != start[i] {
+			d.err = d.syntaxError("invalid <![ sequence")
+			return d.err
+		}
+	}
+	d.buf.Reset()
+	var b0 byte
+	for {
+		b, ok := d.getc()
+		if !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		switch {
+		case b == '\r':
+			d.buf.WriteByte('\n')
+		case b0 == '\r' && b == '\n':
+			// Skip \r\n--we already wrote \n.
+		default:
+			d.buf.WriteByte(b)
+		}
+		b0 = b
+		if b == '>' && bytes.HasSuffix(d.buf.Bytes(), []byte("]]>")) {
+			break
+		}
+	}
+	if d.OnChar != nil {
+		d.OnChar(goxml.CharData(bytes.TrimSuffix(d.buf.Bytes(), []byte("]]>"))))
+	}
+	return nil
+}
+
 func (d *Decoder) attrval() []byte {
 	b, ok := d.getc()
 	if !ok {
-- 
2.43.0


From 2aff93df2adb689a8189266fd06bed042582b36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 11/45] fix: write names with the namespace declarations in
 scope

---
 internal/xml/printer.go | 130 +++++++++++++++++++++++++++++-----------
 1 file changed, 96 insertions(+), 34 deletions(-)

diff --git a/internal/xml/printer.go b/internal/xml/printer.go
index 90f8300..68262dc 100644
--- a/internal/xml/printer.go
+++ b/internal/xml/printer.go
@@ -3,6 +3,7 @@ package xml
 import (
 	"bufio"
 	"encoding/xml"
+	"strconv"
 )
 
 const (
@@ -13,31 +14,92 @@ type Printer struct {
 	*bufio.Writer
 	AutoClose      bool
 	SkipAttrEscape bool
-	attrPrefix     map[string]string // map name space -> prefix
+	depth          int
+	bindings       []binding // name space declarations in scope, the innermost last
 }
 
-// createAttrPrefix finds the name space prefix attribute to use for the given name space,
-// defining a new prefix if necessary. It returns the prefix.
-func (p *Printer) createAttrPrefix(attr *xml.Attr) string {
-	if prefix := p.attrPrefix[attr.Name.Space]; prefix != "" {
-		return prefix
+// binding is the declaration of a prefix in the element at depth.
+// The default name space has an empty prefix.
+type binding struct {
+	prefix, space string
+	depth         int
+}
+
+// bind declares the prefixes defined by attrs in the current element.
+func (p *Printer) bind(attrs []xml.Attr) {
+	for _, attr := range attrs {
+		if attr.Name.Space == "xmlns" && attr.Name.Local != "" {
+			p.bindings = append(p.bindings, binding{attr.Name.Local, attr.Value, p.depth})
+		} else if attr.Name.Space == "" && attr.Name.Local == "xmlns" {
+			p.bindings = append(p.bindings, binding{"", attr.Value, p.depth})
+		}
 	}
-	if attr.Name.Space == nsXML {
-		return "xml"
+}
+
+// unbind closes the current element and forgets its declarations.
+func (p *Printer) unbind() {
+	for len(p.bindings) > 0 && p.bindings[len(p.bindings)-1].depth == p.depth {
+		p.bindings = p.bindings[:len(p.bindings)-1]
 	}
+	p.depth--
+}
 
-	// Need to define a new name space.
-	if p.attrPrefix == nil {
-		p.attrPrefix = make(map[string]string)
+// prefix returns the innermost prefix in scope for the name space.
+// The empty prefix is not considered for attributes.
+func (p *Printer) prefix(space string, isAttr bool) string {
+	switch space {
+	case "", "xmlns":
+		return space
+	case nsXML:
+		return "xml"
 	}
+	for i := len(p.bindings) - 1; i >= 0; i-- {
+		b := p.bindings[i]
+		if b.space != space || (isAttr && b.prefix == "") {
+			continue
+		}
+		var shadowed bool
+		for _, inner := range p.bindings[i+1:] {
+			shadowed = shadowed || inner.prefix == b.prefix
+		}
+		if !shadowed {
+			return b.prefix
+		}
+	}
+	return ""
+}
 
-	ns, prefix := attr.Name.Space, attr.Name.Local
-	if attr.Name.Space == "xmlns" {
-		ns, prefix = attr.Value, attr.Name.Local
+// declare binds the name space to a new prefix in the current element if none is in scope.
+func (p *Printer) declare(space string, isAttr bool) {
+	if space == "" || p.prefix(space, isAttr) != "" {
+		return
+	}
+	if !isAttr {
+		for i := len(p.bindings) - 1; i >= 0; i-- {
+			if p.bindings[i].prefix == "" {
+				if p.bindings[i].space == space {
+					return // default name space
+				}
+				break
+			}
+		}
+	}
+	prefix := "ns" + strconv.Itoa(p.depth)
+	for i := 0; i < len(p.bindings); i++ {
+		if p.bindings[i].prefix == prefix { // taken
+			prefix += "_"
+			i = -1
+		}
 	}
-	p.attrPrefix[ns] = prefix
+	p.bindings = append(p.bindings, binding{prefix, space, p.depth})
+}
 
-	return attr.Name.Space
+func (p *Printer) writeName(name xml.Name, isAttr bool) {
+	if prefix := p.prefix(name.Space, isAttr); prefix != "" {
+		p.WriteString(prefix)
+		p.WriteByte(':')
+	}
+	p.WriteString(name.Local)
 }
 
 // EscapeString writes to p the properly escaped XML equivalent
@@ -48,14 +110,22 @@ func (p *Printer) EscapeString(s string) {
 
 // WriteStart writes the given start element.
 func (p *Printer) WriteStart(start *xml.StartElement) {
+	p.depth++
+	p.bind(start.Attr)
+	first := len(p.bindings)
+	p.declare(start.Name.Space, false)
+	for _, attr := range start.Attr {
+		p.declare(attr.Name.Space, true)
+	}
 	p.WriteByte('<')
-	if start.Name.Space != "" {
-		if prefix := p.attrPrefix[start.Name.Space]; prefix != "" {
-			p.WriteString(prefix)
-			p.WriteByte(':')
-		}
+	p.writeName(start.Name, false)
+	for _, b := range p.bindings[first:] {
+		p.WriteString(" xmlns:")
+		p.WriteString(b.prefix)
+		p.WriteString(`="`)
+		p.EscapeString(b.space)
+		p.WriteByte('"')
 	}
-	p.WriteString(start.Name.Local)
 
 	// Attributes
 	for _, attr := range start.Attr {
@@ -64,11 +134,7 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 			continue
 		}
 		p.WriteByte(' ')
-		if name.Space != "" {
-			p.WriteString(p.createAttrPrefix(&attr))
-			p.WriteByte(':')
-		}
-		p.WriteString(name.Local)
+		p.writeName(name, true)
 		p.WriteString(`="`)
 		if p.SkipAttrEscape {
 			p.WriteString(attr.Value)
@@ -79,6 +145,7 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 	}
 	if p.AutoClose {
 		p.WriteByte('/')
+		p.unbind()
 	}
 	p.WriteByte('>')
 }
@@ -86,12 +153,7 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 func (p *Printer) WriteEnd(name xml.Name) {
 	p.WriteByte('<')
 	p.WriteByte('/')
-	if name.Space != "" {
-		if prefix := p.attrPrefix[name.Space]; prefix != "" {
-			p.WriteString(prefix)
-			p.WriteByte(':')
-		}
-	}
-	p.WriteString(name.Local)
+	p.writeName(name, false)
 	p.WriteByte('>')
+	p.unbind()
 }
-- 
2.43.0


From 6cc855a9b3c67d9f9273a77430c6966d6d78d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 12/45] fix: write the additional attributes of triangles

---
 encoder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index 0fd7d6e..ab51e00 100644
--- a/encoder.go
+++ b/encoder.go
@@ -509,7 +509,15 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 				start.Attr = attrs[:5]
 			}
 		}
-		t.AnyAttr.Marshal3MF(x, &start)
+		if len(t.AnyAttr) != 0 {
+			// clip so attrs is not overwritten, and escape the values we do not control.
+			start.Attr = start.Attr[:len(start.Attr):len(start.Attr)]
+			t.AnyAttr.Marshal3MF(x, &start)
+			x.SetSkipAttrEscape(false)
+			x.EncodeToken(start)
+			x.SetSkipAttrEscape(true)
+			continue
+		}
 		x.EncodeToken(start)
 	}
 	x.SetSkipAttrEscape(false)
-- 
2.43.0


From 13273f9876c185dc72a5d4f97bae76302bb03eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 13/45] fix: write the second radius of a beam unless it is the
 inherited one

---
 beamlattice/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beamlattice/encoder.go b/beamlattice/encoder.go
index 67ebf58..e61d881 100644
--- a/beamlattice/encoder.go
+++ b/beamlattice/encoder.go
@@ -83,7 +83,7 @@ func marshalBeams(x spec.Encoder, m *BeamLattice) {
 				Value: strconv.FormatFloat(float64(b.Radius[0]), 'f', x.FloatPresicion(), 32),
 			})
 		}
-		if b.Radius[1] > 0 && b.Radius[1] != m.Radius {
+		if b.Radius[1] > 0 && b.Radius[1] != b.Radius[0] {
 			xbeam.Attr = append(xbeam.Attr, xml.Attr{
 				Name:  xml.Name{Local: attrR2},
 				Value: strconv.FormatFloat(float64(b.Radius[1]), 'f', x.FloatPresicion(), 32),
-- 
2.43.0


From 347ad02fc9d7da81cfaa622d6768b36382de6b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 14/45] fix: bound every transformed corner of nested and empty
 objects

---
 core.go | 37 ++++++++++++++++++++++++-------------
 math.go | 26 ++++++++++++--------------
 2 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/core.go b/core.go
index 0d2d16a..59daa93 100644
--- a/core.go
+++ b/core.go
@@ -247,8 +247,8 @@ func (m *Model) BoundingBox() Box {
 			defer wg.Done()
 			item := m.Build.Items[i]
 			if o, ok := m.FindObject(item.ObjectPath(), item.ObjectID); ok {
-				ibox := o.boundingBox(m, item.ObjectPath())
-				if ibox != emptyBox {
+				ibox := o.boundingBox(m, item.ObjectPath(), make(map[*Object]Box))
+				if !ibox.isLimit() {
 					mu.Lock()
 					box = box.extend(item.Transform.MulBox(ibox))
 					mu.Unlock()
@@ -257,6 +257,9 @@ func (m *Model) BoundingBox() Box {
 		}(i)
 	}
 	wg.Wait()
+	if box.isLimit() {
+		return Box{}
+	}
 	return box
 }
 
@@ -413,22 +416,30 @@ type Object struct {
 	AnyAttr    spec.AnyAttr
 }
 
-func (o *Object) boundingBox(m *Model, path string) Box {
-	if o.Mesh != nil {
-		return o.Mesh.BoundingBox()
-	}
-	if o.Components == nil || len(o.Components.Component) == 0 {
-		return Box{}
+// boundingBox returns the limit box if the object has no vertices.
+// The visited boxes are reused, and an object contained by itself is ignored.
+func (o *Object) boundingBox(m *Model, path string, visited map[*Object]Box) Box {
+	if box, ok := visited[o]; ok {
+		return box
 	}
 	box := newLimitBox()
-	for _, c := range o.Components.Component {
-		if obj, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-			cbox := obj.boundingBox(m, path)
-			if cbox != emptyBox {
-				box = box.extend(c.Transform.MulBox(cbox))
+	visited[o] = box
+	if o.Mesh != nil {
+		for _, v := range o.Mesh.Vertices.Vertex {
+			box = box.extendPoint(v)
+		}
+	} else if o.Components != nil {
+		for _, c := range o.Components.Component {
+			cpath := c.ObjectPath(path)
+			if obj, ok := m.FindObject(cpath, c.ObjectID); ok {
+				cbox := obj.boundingBox(m, cpath, visited)
+				if !cbox.isLimit() {
+					box = box.extend(c.Transform.MulBox(cbox))
+				}
 			}
 		}
 	}
+	visited[o] = box
 	return box
 }
 
diff --git a/math.go b/math.go
index 4612e0b..ac41337 100644
--- a/math.go
+++ b/math.go
@@ -178,18 +178,13 @@ func (m1 Matrix) MulBox(b Box) Box {
 	if m1[15] == 0 {
 		return b
 	}
-	box := Box{
-		Min: m1.Mul3D(b.Min),
-		Max: m1.Mul3D(b.Max),
-	}
-	if box.Min.X() > box.Max.X() {
-		box.Min[0], box.Max[0] = box.Max[0], box.Min[0]
-	}
-	if box.Min.Y() > box.Max.Y() {
-		box.Min[1], box.Max[1] = box.Max[1], box.Min[1]
-	}
-	if box.Min.Z() > box.Max.Z() {
-		box.Min[2], box.Max[2] = box.Max[2], box.Min[2]
+	box := newLimitBox()
+	for _, x := range [...]float32{b.Min.X(), b.Max.X()} {
+		for _, y := range [...]float32{b.Min.Y(), b.Max.Y()} {
+			for _, z := range [...]float32{b.Min.Z(), b.Max.Z()} {
+				box = box.extendPoint(m1.Mul3D(Point3D{x, y, z}))
+			}
+		}
 	}
 	return box
 }
@@ -200,8 +195,6 @@ type Box struct {
 	Max Point3D
 }
 
-var emptyBox = Box{}
-
 func newLimitBox() Box {
 	return Box{
 		Min: Point3D{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32},
@@ -209,6 +202,11 @@ func newLimitBox() Box {
 	}
 }
 
+// isLimit returns true if the box has not been extended with any point.
+func (b Box) isLimit() bool {
+	return b == newLimitBox()
+}
+
 func (b Box) extend(v Box) Box {
 	return Box{
 		Min: Point3D{
-- 
2.43.0


From 2e7f2d66022b4bf7a15da1748d5093f36dcb8166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 15/45] fix: find the lowest unused ID when IDs are repeated or
 zero

---
 core.go | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/core.go b/core.go
index 59daa93..40e234b 100644
--- a/core.go
+++ b/core.go
@@ -7,7 +7,6 @@ import (
 	"encoding/xml"
 	"image/color"
 	"io"
-	"sort"
 	"sync"
 
 	"github.com/hpinc/go3mf/spec"
@@ -137,30 +136,20 @@ type Resources struct {
 
 // UnusedID returns the lowest unused ID.
 func (rs *Resources) UnusedID() uint32 {
-	if len(rs.Assets) == 0 && len(rs.Objects) == 0 {
-		return 1
+	used := make(map[uint32]struct{}, len(rs.Assets)+len(rs.Objects))
+	for _, r := range rs.Assets {
+		used[r.Identify()] = struct{}{}
 	}
-	ids := make([]int, len(rs.Assets)+len(rs.Objects)+1)
-	ids[0] = 0
-	for i, r := range rs.Assets {
-		id := r.Identify()
-		ids[i+1] = int(id)
+	for _, o := range rs.Objects {
+		used[o.ID] = struct{}{}
 	}
-	for i, o := range rs.Objects {
-		ids[len(rs.Assets)+i+1] = int(o.ID)
-	}
-	sort.Ints(ids)
-	lowest := 0
-	for i, id := range ids {
-		if id != i {
-			lowest = i
-			break
+	lowest := uint32(1)
+	for {
+		if _, ok := used[lowest]; !ok {
+			return lowest
 		}
+		lowest++
 	}
-	if lowest == 0 {
-		lowest = ids[len(ids)-1] + 1
-	}
-	return uint32(lowest)
 }
 
 // FindObject returns the resource with the target ID.
-- 
2.43.0


From 34a981207ef8588f7b912bafe4cd495f7084c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 16/45] fix: follow components across parts and cycles when
 checking planar transforms

---
 slices/validate.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/slices/validate.go b/slices/validate.go
index 1a5164d..b7aadb6 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -186,10 +186,11 @@ func checkAllClosed(m *go3mf.Model, r *SliceStack) bool {
 }
 
 func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
+	visited := make(map[*go3mf.Object]struct{})
 	for _, item := range m.Build.Items {
 		targetPath := item.ObjectPath()
 		if targetPath == "" {
-			targetPath = path
+			targetPath = m.PathOrDefault()
 		}
 		if item.ObjectID == id && targetPath == path {
 			if item.HasTransform() && !validTransform(item.Transform) {
@@ -197,7 +198,7 @@ func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
 			}
 		}
 		if o, ok := m.FindObject(targetPath, item.ObjectID); ok {
-			if !validateObjectTransforms(m, o, path, id) {
+			if !validateObjectTransforms(m, o, targetPath, path, id, visited) {
 				return false
 			}
 		}
@@ -205,23 +206,23 @@ func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
 	return true
 }
 
-func validateObjectTransforms(m *go3mf.Model, o *go3mf.Object, path string, id uint32) bool {
-	if o.Components == nil {
+// validateObjectTransforms validates the transforms applied to the object identified by path and id
+// in the components of o, which is defined in opath.
+func validateObjectTransforms(m *go3mf.Model, o *go3mf.Object, opath, path string, id uint32, visited map[*go3mf.Object]struct{}) bool {
+	if _, ok := visited[o]; ok || o.Components == nil {
 		return true
 	}
+	visited[o] = struct{}{} // avoid circular references
 	for _, c := range o.Components.Component {
-		if c.ObjectID == id && c.ObjectPath(path) == path {
+		cpath := c.ObjectPath(opath)
+		if c.ObjectID == id && cpath == path {
 			if c.HasTransform() && !validTransform(c.Transform) {
 				return false
 			}
 		}
-		if c.ObjectID == o.ID && c.ObjectPath(path) == path { // avoid circular references
-			break
-		} else {
-			if o1, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-				if !validateObjectTransforms(m, o1, path, id) {
-					return false
-				}
+		if o1, ok := m.FindObject(cpath, c.ObjectID); ok {
+			if !validateObjectTransforms(m, o1, cpath, path, id, visited) {
+				return false
 			}
 		}
 	}
-- 
2.43.0


From a66951d761b2229ed1f1177f95b40514719baae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 17/45] fix: check the bounds of composite and multi indices

---
 materials/validate.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/materials/validate.go b/materials/validate.go
index a3e8eed..a38a78f 100644
--- a/materials/validate.go
+++ b/materials/validate.go
@@ -111,6 +111,7 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 		lengths           = make([]int, len(r.PIDs))
 	)
 	for j, pid := range r.PIDs {
+		lengths[j] = -1 // unknown
 		if pr, ok := m.FindAsset(path, pid); ok {
 			switch pr := pr.(type) {
 			case *go3mf.BaseMaterials:
@@ -131,6 +132,8 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 				}
 				colorCount++
 				lengths[j] = len(pr.Colors)
+			case *Texture2DGroup:
+				lengths[j] = len(pr.Coords)
 			}
 		} else if !resourceUndefined {
 			resourceUndefined = true
@@ -139,7 +142,7 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 	}
 	for j, multi := range r.Multis {
 		for k, index := range multi.PIndices {
-			if k < len(r.PIDs) && lengths[k] < int(index) {
+			if k < len(r.PIDs) && lengths[k] >= 0 && int(index) >= lengths[k] {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrMulti, j))
 				break
 			}
@@ -157,7 +160,7 @@ func validateCompositeMat(m *go3mf.Model, path string, r *CompositeMaterials) (e
 	} else if mat, ok := m.FindAsset(path, r.MaterialID); ok {
 		if bm, ok := mat.(*go3mf.BaseMaterials); ok {
 			for _, index := range r.Indices {
-				if int(index) > len(bm.Materials) {
+				if int(index) >= len(bm.Materials) {
 					errs = errors.Append(errs, errors.ErrIndexOutOfBounds)
 					break
 				}
-- 
2.43.0


From 9d0afed9cd84067875073d914af1212730dbb5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 18/45] fix: check beam set references against the beams

---
 beamlattice/validate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beamlattice/validate.go b/beamlattice/validate.go
index 887dc16..8d94ca5 100644
--- a/beamlattice/validate.go
+++ b/beamlattice/validate.go
@@ -61,7 +61,7 @@ func validateObject(m *go3mf.Model, path string, obj *go3mf.Object) error {
 	}
 	for i, set := range bl.BeamSets.BeamSet {
 		for _, ref := range set.Refs {
-			if int(ref) >= len(set.Refs) {
+			if int(ref) >= len(bl.Beams.Beam) {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrBeamSet, i))
 				break
 			}
-- 
2.43.0


From 23f57e13d5d11586aa43bc6c8be519602d66b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 19/45] fix: complete the build when its UUID is empty

---
 production/production.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/production/production.go b/production/production.go
index ce4dce7..d7f7f0b 100644
--- a/production/production.go
+++ b/production/production.go
@@ -127,8 +127,11 @@ func (p *ComponentAttr) getUUID() string {
 // SetMissingUUIDs traverse all the model tree setting
 // all missing UUID attributes.
 func SetMissingUUIDs(m *go3mf.Model) {
-	if GetBuildAttr(&m.Build) == nil {
+	bext := GetBuildAttr(&m.Build)
+	if bext == nil {
 		m.Build.AnyAttr = append(m.Build.AnyAttr, &BuildAttr{UUID: uuid.New()})
+	} else if bext.UUID == "" {
+		bext.UUID = uuid.New()
 	}
 	for _, item := range m.Build.Items {
 		ext := GetItemAttr(item)
-- 
2.43.0


From 9dca54431c7237eb037d7d8e8d32b7287cc42900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 20/45] fix: require the brackets of the Microsoft UUID form

---
 uuid/uuid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 27b62d4..45f235b 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -105,6 +105,9 @@ func validateUUID(s string) error {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
+		if s[0] != '{' || s[37] != '}' {
+			return fmt.Errorf("production: invalid brackets: %q", s)
+		}
 		s = s[1:]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
-- 
2.43.0


From 2f412f11e7d64196cc0833f7a843fe6b745d4fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 21/45] fix: do not merge distant vertices when building meshes

---
 math.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/math.go b/math.go
index ac41337..b01d7fe 100644
--- a/math.go
+++ b/math.go
@@ -35,20 +35,21 @@ func newPairEntry(data1, data2 uint32) pairEntry {
 	return pairEntry{data2, data1}
 }
 
-// vec3I represents a 3D vector typed as int32
+// vec3I represents a 3D vector typed as integers,
+// stored as float64 as they can be out of the range of int64.
 type vec3I struct {
-	X int32 // X coordinate
-	Y int32 // Y coordinate
-	Z int32 // Z coordinate
+	X float64 // X coordinate
+	Y float64 // Y coordinate
+	Z float64 // Z coordinate
 }
 
 const micronsAccuracy = 1e-6
 
 func newvec3IFromVec3(vec Point3D) vec3I {
 	a := vec3I{
-		X: int32(math.Floor(float64(vec.X() / micronsAccuracy))),
-		Y: int32(math.Floor(float64(vec.Y() / micronsAccuracy))),
-		Z: int32(math.Floor(float64(vec.Z() / micronsAccuracy))),
+		X: math.Round(float64(vec.X()) / micronsAccuracy),
+		Y: math.Round(float64(vec.Y()) / micronsAccuracy),
+		Z: math.Round(float64(vec.Z()) / micronsAccuracy),
 	}
 	return a
 }
-- 
2.43.0


From d5d8e08047133cab90a2d2665b499ddb34234d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 22/45] fix: do not allocate memory for the faces that a STL
 header announces

---
 importer/stl/binary.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index dce85a7..fb8431c 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -11,6 +11,8 @@ import (
 	"github.com/hpinc/go3mf"
 )
 
+const maxFacesCapacity = 1000
+
 type binaryHeader struct {
 	_         [80]byte
 	FaceCount uint32
@@ -35,7 +37,11 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 	if err != nil {
 		return err
 	}
-	mb.Mesh.Triangles.Triangle = make([]go3mf.Triangle, 0, header.FaceCount)
+	capacity := header.FaceCount
+	if capacity > maxFacesCapacity {
+		capacity = maxFacesCapacity // The header is not trusted
+	}
+	mb.Mesh.Triangles.Triangle = make([]go3mf.Triangle, 0, capacity)
 	nextFaceCheck := checkEveryFaces
 	var facet binaryFace
 	for nFace := 0; nFace < int(header.FaceCount); nFace++ {
-- 
2.43.0


From 85e3e5ff1fecb755be2298525aa8108c6b012ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 23/45] fix: stop importing a STL as soon as the context is
 cancelled

---
 importer/stl/binary.go  | 3 +--
 importer/stl/decoder.go | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index fb8431c..7ba7337 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -53,8 +53,7 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 		if len(m.Triangles.Triangle) > nextFaceCheck {
 			select {
 			case <-ctx.Done():
-				err = ctx.Err()
-				break
+				return ctx.Err()
 			default: // Default is must to avoid blocking
 			}
 			nextFaceCheck += checkEveryFaces
diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index 82fd9b1..444f582 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -37,6 +37,9 @@ func (d *Decoder) Decode(m *go3mf.Model) error {
 
 // DecodeContext creates a mesh from a read stream.
 func (d *Decoder) DecodeContext(ctx context.Context, m *go3mf.Model) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	b := bufio.NewReader(d.r)
 	isASCII, err := d.isASCII(b)
 	if err != nil {
-- 
2.43.0


From 2c7e905ae695a2811a0fbe001708483dafeb3f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 24/45] fix: import small STL files and report their read
 errors

---
 importer/stl/decoder.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index 444f582..ec38204 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -15,7 +15,7 @@ import (
 
 var checkEveryFaces = 1000
 
-const sizeOfHeader = 300 // minimum size of a closed mesh in binary is 384 bytes, corresponding to a triangle.
+const sizeOfHeader = 300 // maximum number of bytes used to detect the encoding.
 
 // Decoder can decode a stl.
 // It supports automatic detection of binary or ascii stl encoding.
@@ -62,17 +62,11 @@ func (d *Decoder) DecodeContext(ctx context.Context, m *go3mf.Model) error {
 }
 
 func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
-	var header string
-	for {
-		buff, err := r.Peek(sizeOfHeader)
-		if err == io.EOF {
-			return false, err
-		}
-		if len(buff) >= sizeOfHeader {
-			header = strings.ToLower(string(buff))
-			break
-		}
+	buff, err := r.Peek(sizeOfHeader)
+	if err != nil && (err != io.EOF || len(buff) == 0) {
+		return false, err
 	}
+	header := strings.ToLower(string(buff))
 	return strings.HasPrefix(header, "solid") && isASCII(header), nil
 }
 
-- 
2.43.0


From 0ad4e975aeb4e48f9c5e0ae001d096df70c358d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 25/45] fix: detect binary STL files by their null bytes

---
 importer/stl/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index ec38204..2a598bf 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -72,7 +72,7 @@ func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
 
 func isASCII(s string) bool {
 	for i := 0; i < len(s); i++ {
-		if s[i] >= utf8.RuneSelf {
+		if s[i] >= utf8.RuneSelf || s[i] == 0 {
 			return false
 		}
 	}
-- 
2.43.0


From 1edafcfaa8e90ab48c2ea0abbff77af049d959d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 26/45] fix: reject ASCII STL files with invalid or missing
 coordinates

---
 importer/stl/ascii.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index d73e4c0..5485fa3 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -30,9 +30,11 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 		fields := strings.Fields(line)
 		if len(fields) == 4 && fields[0] == "vertex" {
 			var f [3]float64
-			f[0], _ = strconv.ParseFloat(fields[1], 32)
-			f[1], _ = strconv.ParseFloat(fields[2], 32)
-			f[2], _ = strconv.ParseFloat(fields[3], 32)
+			for i := range f {
+				if f[i], err = strconv.ParseFloat(fields[i+1], 32); err != nil {
+					return err
+				}
+			}
 			nodes[position] = mb.AddVertex(go3mf.Point3D{float32(f[0]), float32(f[1]), float32(f[2])})
 			position++
 
@@ -54,5 +56,8 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 			return err
 		}
 	}
-	return scanner.Err()
+	if err = scanner.Err(); err == nil && position != 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return err
 }
-- 
2.43.0


From 8d8558b4631a6e7d43bcd7d28ad755268204aab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 27/45] fix: report enumerated and boolean values that cannot
 be parsed

---
 beamlattice/decoder.go |  4 ++++
 decoder.go             |  8 ++++++--
 materials/decoder.go   | 25 ++++++++++++++++++++-----
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/beamlattice/decoder.go b/beamlattice/decoder.go
index ede9196..1cb4ac4 100644
--- a/beamlattice/decoder.go
+++ b/beamlattice/decoder.go
@@ -156,12 +156,16 @@ func (d *beamDecoder) Start(attrs []spec.XMLAttr) error {
 			beam.CapMode[0], ok = newCapMode(string(a.Value))
 			if ok {
 				hasCap1 = true
+			} else {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
 		case attrCap2:
 			var ok bool
 			beam.CapMode[1], ok = newCapMode(string(a.Value))
 			if ok {
 				hasCap2 = true
+			} else {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
 			}
 		}
 	}
diff --git a/decoder.go b/decoder.go
index 0e18169..187bc77 100644
--- a/decoder.go
+++ b/decoder.go
@@ -174,6 +174,7 @@ func (d *metadataDecoder) namespace(local string) (string, bool) {
 }
 
 func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
+	var errs error
 	for _, a := range attrs {
 		if a.Name.Space != "" {
 			continue
@@ -193,10 +194,13 @@ func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
 		case attrType:
 			d.metadata.Type = string(a.Value)
 		case attrPreserve:
-			d.metadata.Preserve, _ = strconv.ParseBool(string(a.Value))
+			var err error
+			if d.metadata.Preserve, err = strconv.ParseBool(string(a.Value)); err != nil {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		}
 	}
-	return nil
+	return errs
 }
 
 func (d *metadataDecoder) CharData(txt []byte) {
diff --git a/materials/decoder.go b/materials/decoder.go
index b038fb9..4f03bd8 100644
--- a/materials/decoder.go
+++ b/materials/decoder.go
@@ -187,13 +187,25 @@ func (d *texture2DDecoder) Start(attrs []spec.XMLAttr) error {
 		case attrPath:
 			d.resource.Path = string(a.Value)
 		case attrContentType:
-			d.resource.ContentType, _ = newTexture2DType(string(a.Value))
+			var ok bool
+			if d.resource.ContentType, ok = newTexture2DType(string(a.Value)); !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
+			}
 		case attrTileStyleU:
-			d.resource.TileStyleU, _ = newTileStyle(string(a.Value))
+			var ok bool
+			if d.resource.TileStyleU, ok = newTileStyle(string(a.Value)); !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		case attrTileStyleV:
-			d.resource.TileStyleV, _ = newTileStyle(string(a.Value))
+			var ok bool
+			if d.resource.TileStyleV, ok = newTileStyle(string(a.Value)); !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		case attrFilter:
-			d.resource.Filter, _ = newTextureFilter(string(a.Value))
+			var ok bool
+			if d.resource.Filter, ok = newTextureFilter(string(a.Value)); !ok {
+				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+			}
 		}
 	}
 	return errs
@@ -309,7 +321,10 @@ func (d *multiPropertiesDecoder) Start(attrs []spec.XMLAttr) error {
 			d.resource.ID = uint32(id)
 		case attrBlendMethods:
 			for _, f := range strings.Fields(string(a.Value)) {
-				val, _ := newBlendMethod(f)
+				val, ok := newBlendMethod(f)
+				if !ok {
+					errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, false))
+				}
 				d.resource.BlendMethods = append(d.resource.BlendMethods, val)
 			}
 		case attrPIDs:
-- 
2.43.0


From 2283ef409176795b527473f7e23b6a440bb75b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 28/45] fix: ignore attributes of other namespaces in slice
 stacks

---
 slices/decoder.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/slices/decoder.go b/slices/decoder.go
index 4dd286a..a0356f6 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -72,6 +72,9 @@ func (d *sliceStackDecoder) Child(name xml.Name) (i int, child spec.ElementDecod
 func (d *sliceStackDecoder) Start(attrs []spec.XMLAttr) error {
 	var errs error
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrID:
 			id, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -102,6 +105,9 @@ func (d *sliceRefDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrSliceRefID:
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -148,6 +154,9 @@ func (d *sliceDecoder) Start(attrs []spec.XMLAttr) error {
 	d.polygonVerticesDecoder.slice = &d.slice
 	var errs error
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		if a.Name.Local == attrZTop {
 			val, err := strconv.ParseFloat(string(a.Value), 32)
 			if err != nil {
@@ -190,6 +199,9 @@ func (d *polygonVertexDecoder) Start(attrs []spec.XMLAttr) error {
 		errs error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		val, err := strconv.ParseFloat(string(a.Value), 32)
 		if err != nil {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
@@ -225,6 +237,9 @@ func (d *polygonDecoder) Start(attrs []spec.XMLAttr) error {
 	d.slice.Polygons = append(d.slice.Polygons, Polygon{})
 	d.polygonSegmentDecoder.polygon = &d.slice.Polygons[polygonIndex]
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		if a.Name.Local == attrStartV {
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
 			if err != nil {
@@ -249,6 +264,9 @@ func (d *polygonSegmentDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		var required bool
 		val, err := strconv.ParseUint(string(a.Value), 10, 32)
 		switch a.Name.Local {
-- 
2.43.0


From 9b65754ff352efdc34d625e87b7a323a909beb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 29/45] fix: locate the errors of slice segments by their own
 index

---
 slices/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slices/decoder.go b/slices/decoder.go
index a0356f6..3c16ad0 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -226,7 +226,7 @@ type polygonDecoder struct {
 func (d *polygonDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace && name.Local == attrSegment {
 		child = &d.polygonSegmentDecoder
-		i = len(d.slice.Polygons)
+		i = len(d.polygonSegmentDecoder.polygon.Segments)
 	}
 	return
 }
-- 
2.43.0


From b0ea41caaa9d2dbe8fd7ab574e8bc856374582a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 30/45] fix: do not configure the decompressor of a package
 that cannot be opened

---
 opc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opc.go b/opc.go
index c58e2b0..52588f0 100644
--- a/opc.go
+++ b/opc.go
@@ -103,7 +103,7 @@ type opcReader struct {
 
 func (o *opcReader) Open(f func(r io.Reader) io.ReadCloser) (err error) {
 	o.r, err = opc.NewReader(o.ra, o.size)
-	if f != nil {
+	if err == nil && f != nil {
 		o.r.SetDecompressor(f)
 	}
 	return
-- 
2.43.0


From 51359584c708fb15dba3f3a0a88878b6c1d3a22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 31/45] fix: do not write implied relationships into the child
 models

---
 encoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index ab51e00..6a7efe4 100644
--- a/encoder.go
+++ b/encoder.go
@@ -193,7 +193,8 @@ func (e *Encoder) writeChildModels(m *Model) error {
 			return err
 		}
 		enc := newXMLEncoder(w, e.FloatPrecision)
-		enc.relationships = child.Relationships
+		enc.relationships = make([]Relationship, len(child.Relationships))
+		copy(enc.relationships, child.Relationships)
 		if err = e.writeChildModel(enc, m, child); err != nil {
 			return err
 		}
-- 
2.43.0


From 48174b1b28ca3a5df564cc82bf09369d9ad86b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 32/45] fix: do not decode namespace declarations as attributes
 of the element

---
 read.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/read.go b/read.go
index d859a0c..24aeb50 100644
--- a/read.go
+++ b/read.go
@@ -89,6 +89,10 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 			if tmpDecoder != nil {
 				stack = append(stack, stackElement{tmpDecoder, tp.Name, i})
 				currentDecoder = tmpDecoder
+				if _, ok := tmpDecoder.(spec.AppendTokenElementDecoder); !ok && len(stack) > 1 {
+					// only the model and the unknown content keep their namespace declarations
+					tp.Attr = dropNamespaces(tp.Attr)
+				}
 				err := currentDecoder.Start(*(*[]spec.XMLAttr)(unsafe.Pointer(&tp.Attr)))
 				if err != nil {
 					for j := len(stack) - 1; j >= 0; j-- {
@@ -176,6 +180,17 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 	return err
 }
 
+// dropNamespaces removes in place the namespace declarations from attrs.
+func dropNamespaces(attrs []xml3mf.XMLAttr) []xml3mf.XMLAttr {
+	kept := attrs[:0]
+	for _, a := range attrs {
+		if a.Name.Space != attrXmlns && (a.Name.Space != "" || a.Name.Local != attrXmlns) {
+			kept = append(kept, a)
+		}
+	}
+	return kept
+}
+
 // Decoder implements a 3mf file decoder.
 type Decoder struct {
 	Strict        bool
-- 
2.43.0


From 473b15de23e71daf5964fe83b53a71c6e0038244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 33/45] fix: normalise white space in attribute values

---
 internal/xml/xml.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index c76dcaa..7b6f320 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -750,8 +750,11 @@ Input:
 			return nil
 		}
 
-		// We must rewrite unescaped \r and \r\n into \n.
-		if b == '\r' {
+		// We must rewrite unescaped \r and \r\n into \n,
+		// and unescaped white space in attribute values into a space.
+		if quote >= 0 && (b == '\r' || b == '\t' || (b == '\n' && b1 != '\r')) {
+			d.buf.WriteByte(' ')
+		} else if b == '\r' {
 			d.buf.WriteByte('\n')
 		} else if b1 == '\r' && b == '\n' {
 			// Skip \r\n--we already wrote \n.
-- 
2.43.0


From 801c9a6bb53fd45816f446e6f927797a8fa9eafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 34/45] fix: resolve relative relationship targets against the
 folder of the part

---
 opc.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opc.go b/opc.go
index 52588f0..5017bd3 100644
--- a/opc.go
+++ b/opc.go
@@ -5,6 +5,7 @@ package go3mf
 
 import (
 	"io"
+	"path"
 
 	"github.com/qmuntal/opc"
 )
@@ -87,7 +88,7 @@ func (o *opcFile) ContentType() string {
 }
 
 func (o *opcFile) FindFileFromName(name string) (packageFile, bool) {
-	name = opc.ResolveRelationship(o.f.Name, name)
+	name = resolveRelationship(o.f.Name, name)
 	return findOPCFileFromName(name, o.r)
 }
 
@@ -114,12 +115,13 @@ func (o *opcReader) Relationships() []Relationship {
 }
 
 func (o *opcReader) FindFileFromName(name string) (packageFile, bool) {
-	name = opc.ResolveRelationship("/", name)
+	name = resolveRelationship("/", name)
 	return findOPCFileFromName(name, o.r)
 }
 
 func resolveRelationship(source, rel string) string {
-	return opc.ResolveRelationship(source, rel)
+	// the target of a part in the root folder gets a double slash, and dot segments are kept
+	return path.Clean(opc.ResolveRelationship(source, rel))
 }
 
 func findOPCFileFromName(name string, r *opc.Reader) (packageFile, bool) {
-- 
2.43.0


From 86ba525fcc5e7a0c494e804a0a9dfc32c7f054b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 35/45] fix: require end tags to repeat the name of their start
 tag

---
 internal/xml/xml.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 7b6f320..c368a09 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -134,19 +134,20 @@ func (d *Decoder) handleStartElement(t StartElement) {
 		}
 	}
 
+	d.pushElement(t.Name) // the end tag has to repeat the name as it is written
 	d.translate(&t.Name, true)
 	for i := range t.Attr {
 		d.translate(&t.Attr[i].Name, false)
 	}
-	d.pushElement(t.Name)
 	if d.OnStart != nil {
 		d.OnStart(t)
 	}
 }
 
 func (d *Decoder) handleEndElement(t goxml.EndElement) bool {
-	d.translate(&t.Name, true)
-	if d.popElement(&t) {
+	name := t.Name
+	d.translate(&t.Name, true) // before the declarations of the element are undone
+	if d.popElement(name) {
 		if d.OnEnd != nil {
 			d.OnEnd(t)
 		}
@@ -283,9 +284,8 @@ func (d *Decoder) syntaxError(msg string) error {
 // After popping the element, apply any undo records from
 // the stack to restore the name translations that existed
 // before we saw this element.
-func (d *Decoder) popElement(t *goxml.EndElement) bool {
+func (d *Decoder) popElement(name goxml.Name) bool {
 	s := d.pop()
-	name := t.Name
 	switch {
 	case s == nil || s.kind != stkStart:
 		d.err = d.syntaxError("unexpected end element </" + name.Local + ">")
-- 
2.43.0


From a89c32849c6caf8b23797bfdb3b93c31b554ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 36/45] fix: do not copy the text of a metadata for each of its
 chunks

---
 decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 187bc77..b57753d 100644
--- a/decoder.go
+++ b/decoder.go
@@ -162,6 +162,7 @@ type metadataDecoder struct {
 	model     *Model
 	metadatas *[]Metadata
 	metadata  Metadata
+	value     strings.Builder
 }
 
 func (d *metadataDecoder) namespace(local string) (string, bool) {
@@ -204,10 +205,11 @@ func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
 }
 
 func (d *metadataDecoder) CharData(txt []byte) {
-	d.metadata.Value += string(txt) // the text may come in several chunks
+	d.value.Write(txt) // the text may come in several chunks
 }
 
 func (d *metadataDecoder) End() {
+	d.metadata.Value = d.value.String()
 	*d.metadatas = append(*d.metadatas, d.metadata)
 }
 
-- 
2.43.0


From 85f52c8a125d8b3407dad3eed4f9c3fcb4e6f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 37/45] fix: report part names that cannot be normalised
 instead of panicking

---
 opc.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/opc.go b/opc.go
index 5017bd3..048028d 100644
--- a/opc.go
+++ b/opc.go
@@ -4,6 +4,7 @@
 package go3mf
 
 import (
+	"fmt"
 	"io"
 	"path"
 
@@ -36,7 +37,8 @@ func newOpcWriter(w io.Writer) *opcWriter {
 	return &opcWriter{opc.NewWriter(w)}
 }
 
-func (o *opcWriter) Create(name, contentType string) (packagePart, error) {
+func (o *opcWriter) Create(name, contentType string) (_ packagePart, err error) {
+	defer recoverPartName(&err)
 	p := &opc.Part{Name: opc.NormalizePartName(name), ContentType: contentType}
 	w, err := o.w.CreatePart(p, opc.CompressionNormal)
 	if err != nil {
@@ -70,6 +72,14 @@ func newRelationships(rels []*opc.Relationship) []Relationship {
 	return pr
 }
 
+// recoverPartName sets err when the opc package panics,
+// which it does for part names that mix percent-encoded and other reserved characters.
+func recoverPartName(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("opc: invalid part name: %v", r)
+	}
+}
+
 type opcFile struct {
 	r *opc.Reader
 	f *opc.File
@@ -103,6 +113,7 @@ type opcReader struct {
 }
 
 func (o *opcReader) Open(f func(r io.Reader) io.ReadCloser) (err error) {
+	defer recoverPartName(&err)
 	o.r, err = opc.NewReader(o.ra, o.size)
 	if err == nil && f != nil {
 		o.r.SetDecompressor(f)
-- 
2.43.0


From 24bfa60e58d5a39e1021989a4c59fe934f5036fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 38/45] fix: recognise the vertex keyword of ASCII STL files in
 any case

---
 importer/stl/ascii.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index 5485fa3..1807686 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -28,7 +28,7 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 	for scanner.Scan() {
 		line := scanner.Text()
 		fields := strings.Fields(line)
-		if len(fields) == 4 && fields[0] == "vertex" {
+		if len(fields) == 4 && strings.EqualFold(fields[0], "vertex") {
 			var f [3]float64
 			for i := range f {
 				if f[i], err = strconv.ParseFloat(fields[i+1], 32); err != nil {
-- 
2.43.0


From b24e096de303a2bd7a0388c432a1a283f98c0f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 39/45] fix: report a read error of a child part that is
 context.Canceled

---
 read.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 24aeb50..1e8a73e 100644
--- a/read.go
+++ b/read.go
@@ -278,8 +278,13 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 	if err := parentCtx.Err(); err != nil {
 		return err
 	}
+	var canceled error
 	for _, err := range partErrs {
-		if err == nil || err == context.Canceled { // stopped because another part failed
+		if err == nil {
+			continue
+		}
+		if err == context.Canceled { // stopped because another part failed
+			canceled = err
 			continue
 		}
 		if d.Strict || !isContentError(err) {
@@ -287,6 +292,9 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 		}
 		errs = appendContentError(errs, err)
 	}
+	if canceled != nil { // no other part failed, it is the reader who says so
+		return canceled
+	}
 	return errs
 }
 
-- 
2.43.0


From 6ca204e08a90154e70f17cc0fe28228129adea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 40/45] fix: apply the rules of an extension declared with
 several prefixes once

---
 validate.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/validate.go b/validate.go
index 1f7f111..3cce3f8 100644
--- a/validate.go
+++ b/validate.go
@@ -26,6 +26,22 @@ func (m *Model) sortedChilds() []string {
 	return s
 }
 
+// validators returns the validators of the declared extensions,
+// once each even if the namespace is declared with several prefixes.
+func (m *Model) validators() []spec.ValidateSpec {
+	var vs []spec.ValidateSpec
+	for i, ext := range m.Extensions {
+		repeated := false
+		for _, other := range m.Extensions[:i] {
+			repeated = repeated || other.Namespace == ext.Namespace
+		}
+		if v, ok := spec.LoadValidator(ext.Namespace); ok && !repeated {
+			vs = append(vs, v)
+		}
+	}
+	return vs
+}
+
 // Validate checks that the model is conformant with the 3MF specs.
 func (m *Model) Validate() error {
 	var errs error
@@ -45,10 +61,8 @@ func (m *Model) Validate() error {
 	errs = errors.Append(errs, validateRelationship(m, m.Relationships, rootPath))
 	errs = errors.Append(errs, checkMetadadata(m, m.Metadata))
 
-	for _, ext := range m.Extensions {
-		if ext, ok := spec.LoadValidator(ext.Namespace); ok {
-			errs = errors.Append(errs, ext.Validate(m, m.Path, m))
-		}
+	for _, ext := range m.validators() {
+		errs = errors.Append(errs, ext.Validate(m, m.Path, m))
 	}
 
 	for _, path := range sortedChilds {
@@ -180,10 +194,8 @@ func (res *Resources) validate(m *Model, path string) error {
 			aErrs = errors.Append(aErrs, r.Validate(m, path))
 		}
 
-		for _, ext := range m.Extensions {
-			if ext, ok := spec.LoadValidator(ext.Namespace); ok {
-				aErrs = errors.Append(aErrs, ext.Validate(m, path, r))
-			}
+		for _, ext := range m.validators() {
+			aErrs = errors.Append(aErrs, ext.Validate(m, path, r))
 		}
 		errs = errors.Append(errs, errors.WrapIndex(aErrs, r.XMLName().Local, i))
 	}
@@ -238,10 +250,8 @@ func (r *Object) Validate(m *Model, path string) error {
 		errs = errors.Append(errs, r.validateComponents(m, path))
 	}
 
-	for _, ext := range m.Extensions {
-		if ext, ok := spec.LoadValidator(ext.Namespace); ok {
-			errs = errors.Append(errs, ext.Validate(m, path, r))
-		}
+	for _, ext := range m.validators() {
+		errs = errors.Append(errs, ext.Validate(m, path, r))
 	}
 	return errs
 }
-- 
2.43.0


From 1b19f62c50a8b3b76685783a6e7ae5515525ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 41/45] fix: check the planar transforms of sliced objects
 contained by other objects

---
 slices/validate.go | 50 +++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/slices/validate.go b/slices/validate.go
index b7aadb6..1a86e54 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -186,44 +186,44 @@ func checkAllClosed(m *go3mf.Model, r *SliceStack) bool {
 }
 
 func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
-	visited := make(map[*go3mf.Object]struct{})
+	visited := make(map[placement]struct{})
 	for _, item := range m.Build.Items {
 		targetPath := item.ObjectPath()
 		if targetPath == "" {
 			targetPath = m.PathOrDefault()
 		}
-		if item.ObjectID == id && targetPath == path {
-			if item.HasTransform() && !validTransform(item.Transform) {
-				return false
-			}
-		}
-		if o, ok := m.FindObject(targetPath, item.ObjectID); ok {
-			if !validateObjectTransforms(m, o, targetPath, path, id, visited) {
-				return false
-			}
+		planar := !item.HasTransform() || validTransform(item.Transform)
+		if !validatePlacement(m, targetPath, item.ObjectID, planar, path, id, visited) {
+			return false
 		}
 	}
 	return true
 }
 
-// validateObjectTransforms validates the transforms applied to the object identified by path and id
-// in the components of o, which is defined in opath.
-func validateObjectTransforms(m *go3mf.Model, o *go3mf.Object, opath, path string, id uint32, visited map[*go3mf.Object]struct{}) bool {
-	if _, ok := visited[o]; ok || o.Components == nil {
+// placement is an object together with whether all the transforms applied to it are planar.
+type placement struct {
+	o      *go3mf.Object
+	planar bool
+}
+
+// validatePlacement reports whether the object path and id, if it is contained by the
+// object opath and oid, only is under planar transforms.
+func validatePlacement(m *go3mf.Model, opath string, oid uint32, planar bool, path string, id uint32, visited map[placement]struct{}) bool {
+	if oid == id && opath == path && !planar {
+		return false
+	}
+	o, ok := m.FindObject(opath, oid)
+	if !ok || o.Components == nil {
+		return true
+	}
+	if _, ok := visited[placement{o, planar}]; ok {
 		return true
 	}
-	visited[o] = struct{}{} // avoid circular references
+	visited[placement{o, planar}] = struct{}{} // avoid circular references
 	for _, c := range o.Components.Component {
-		cpath := c.ObjectPath(opath)
-		if c.ObjectID == id && cpath == path {
-			if c.HasTransform() && !validTransform(c.Transform) {
-				return false
-			}
-		}
-		if o1, ok := m.FindObject(cpath, c.ObjectID); ok {
-			if !validateObjectTransforms(m, o1, cpath, path, id, visited) {
-				return false
-			}
+		cplanar := planar && (!c.HasTransform() || validTransform(c.Transform))
+		if !validatePlacement(m, c.ObjectPath(opath), c.ObjectID, cplanar, path, id, visited) {
+			return false
 		}
 	}
 	return true
-- 
2.43.0


From cd77d644df0c57aaf374a4e68230fb2313be7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 42/45] fix: validate the metadata of the objects

---
 validate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validate.go b/validate.go
index 3cce3f8..e69ae2f 100644
--- a/validate.go
+++ b/validate.go
@@ -216,7 +216,7 @@ func (res *Resources) validate(m *Model, path string) error {
 // except for the mesh coherency.
 func (r *Object) Validate(m *Model, path string) error {
 	res, _ := m.FindResources(path)
-	var errs error
+	errs := checkMetadadata(m, r.Metadata.Metadata)
 	if r.ID == 0 {
 		errs = errors.Append(errs, errors.ErrMissingID)
 	}
-- 
2.43.0


From 67f15b56e153db25826d69d2a828b593a252d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:09 +0000
Subject: [PATCH 43/45] fix: do not write small beam radii as zero

---
 beamlattice/encoder.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/beamlattice/encoder.go b/beamlattice/encoder.go
index e61d881..fba7a5b 100644
--- a/beamlattice/encoder.go
+++ b/beamlattice/encoder.go
@@ -6,6 +6,7 @@ package beamlattice
 import (
 	"encoding/xml"
 	"strconv"
+	"strings"
 
 	"github.com/hpinc/go3mf/spec"
 )
@@ -14,7 +15,7 @@ import (
 func (m *BeamLattice) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
 	xs := xml.StartElement{Name: xml.Name{Space: Namespace, Local: attrBeamLattice}, Attr: []xml.Attr{
 		{Name: xml.Name{Local: attrMinLength}, Value: strconv.FormatFloat(float64(m.MinLength), 'f', x.FloatPresicion(), 32)},
-		{Name: xml.Name{Local: attrRadius}, Value: strconv.FormatFloat(float64(m.Radius), 'f', x.FloatPresicion(), 32)},
+		{Name: xml.Name{Local: attrRadius}, Value: formatRadius(m.Radius, x.FloatPresicion())},
 	}}
 	if m.ClipMode != ClipNone {
 		xs.Attr = append(xs.Attr, xml.Attr{Name: xml.Name{Local: attrClippingMode}, Value: m.ClipMode.String()})
@@ -43,6 +44,15 @@ func (m *BeamLattice) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
 	return nil
 }
 
+// formatRadius does not round a radius to zero, which means that it is not defined.
+func formatRadius(r float32, prec int) string {
+	s := strconv.FormatFloat(float64(r), 'f', prec, 32)
+	if r > 0 && strings.Trim(s, "0.") == "" {
+		s = strconv.FormatFloat(float64(r), 'f', -1, 32)
+	}
+	return s
+}
+
 func marshalBeamsets(x spec.Encoder, m *BeamLattice) {
 	xb := xml.StartElement{Name: xml.Name{Space: Namespace, Local: attrBeamSets}}
 	x.EncodeToken(xb)
@@ -80,13 +90,13 @@ func marshalBeams(x spec.Encoder, m *BeamLattice) {
 		if b.Radius[0] > 0 && b.Radius[0] != m.Radius {
 			xbeam.Attr = append(xbeam.Attr, xml.Attr{
 				Name:  xml.Name{Local: attrR1},
-				Value: strconv.FormatFloat(float64(b.Radius[0]), 'f', x.FloatPresicion(), 32),
+				Value: formatRadius(b.Radius[0], x.FloatPresicion()),
 			})
 		}
 		if b.Radius[1] > 0 && b.Radius[1] != b.Radius[0] {
 			xbeam.Attr = append(xbeam.Attr, xml.Attr{
 				Name:  xml.Name{Local: attrR2},
-				Value: strconv.FormatFloat(float64(b.Radius[1]), 'f', x.FloatPresicion(), 32),
+				Value: formatRadius(b.Radius[1], x.FloatPresicion()),
 			})
 		}
 		if b.CapMode[0] != m.CapMode {
-- 
2.43.0


From 1ec0d4bec8703c8c84ef0dc575309fbb1e401288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 44/45] fix: allocate room for the triangles of a mesh only
 once

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index b57753d..7b36968 100644
--- a/decoder.go
+++ b/decoder.go
@@ -531,7 +531,7 @@ func (d *trianglesDecoder) Start(attrs []spec.XMLAttr) error {
 	d.triangleDecoder.defaultPropertyID = d.resource.PID
 	d.triangleDecoder.defaultPropertyIndex = d.resource.PIndex
 
-	if len(d.resource.Mesh.Triangles.Triangle) == 0 && len(d.resource.Mesh.Vertices.Vertex) > 0 {
+	if cap(d.resource.Mesh.Triangles.Triangle) == 0 && len(d.resource.Mesh.Vertices.Vertex) > 0 {
 		d.resource.Mesh.Triangles.Triangle = make([]Triangle, 0, len(d.resource.Mesh.Vertices.Vertex)*2)
 	}
 	var errs error
-- 
2.43.0


From eb1f3003284b76d5a9df2ebfa7c57f0adcaa262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:02 +0000
Subject: [PATCH 45/45] fix: validate models with many declared namespaces in
 reasonable time

---
 validate.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/validate.go b/validate.go
index e69ae2f..99c7f75 100644
--- a/validate.go
+++ b/validate.go
@@ -29,15 +29,22 @@ func (m *Model) sortedChilds() []string {
 // validators returns the validators of the declared extensions,
 // once each even if the namespace is declared with several prefixes.
 func (m *Model) validators() []spec.ValidateSpec {
-	var vs []spec.ValidateSpec
-	for i, ext := range m.Extensions {
-		repeated := false
-		for _, other := range m.Extensions[:i] {
-			repeated = repeated || other.Namespace == ext.Namespace
+	var (
+		vs   []spec.ValidateSpec
+		seen []string
+	)
+next:
+	for _, ext := range m.Extensions {
+		v, ok := spec.LoadValidator(ext.Namespace)
+		if !ok {
+			continue
 		}
-		if v, ok := spec.LoadValidator(ext.Namespace); ok && !repeated {
-			vs = append(vs, v)
+		for _, ns := range seen {
+			if ns == ext.Namespace {
+				continue next
+			}
 		}
+		vs, seen = append(vs, v), append(seen, ext.Namespace)
 	}
 	return vs
 }
-- 
2.43.0

