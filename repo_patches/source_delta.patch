From 4bfcfba1ba44a1b32a00dbf65cfef4a062d335ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 01/45] fix: treat a trailing single ; as a search separator

---
 page/page.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/page/page.go b/page/page.go
index b1c7b5e..594d96c 100644
--- a/page/page.go
+++ b/page/page.go
@@ -35,9 +35,9 @@ func (p *Paginate) SearchParts() []string {
 	trimPart := func(origin string) string {
 		return strings.ReplaceAll(origin, ";;", ";")
 	}
-	for i := 0; i < l-1; i++ {
+	for i := 0; i < l; i++ {
 		if search[i] == constants.SearchPartsSep {
-			if search[i+1] == constants.SearchPartsSep {
+			if i+1 < l && search[i+1] == constants.SearchPartsSep {
 				// double ;, skip
 				i += 1
 				continue
-- 
2.43.0


From f12e69c378e768fb9bb49999d536aa2ca3ac76dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 02/45] fix: keep empty search parts and parts starting with ;
 apart when joining

---
 page/page.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/page/page.go b/page/page.go
index 594d96c..0262ce7 100644
--- a/page/page.go
+++ b/page/page.go
@@ -182,6 +182,15 @@ func (p *Paginate) SetSearchWithParts(parts []string) {
 	}
 	pps := []string{}
 	for _, part := range parts {
+		if part == "" {
+			// an empty part would join two separators into an escaped one
+			continue
+		}
+		if len(pps) > 0 && part[0] == constants.SearchPartsSep {
+			// keep the separator apart from the escaped one this part starts with,
+			// Match ignores spaces around a part
+			part = " " + part
+		}
 		pps = append(pps, doubleSep(part))
 	}
 	p.Search = strings.Join(pps, ";")
-- 
2.43.0


From 43d2156df03cb107f3bb51243a2e155617999325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 03/45] fix: match search values against the index values as
 they are stored

---
 page/page.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/page/page.go b/page/page.go
index 0262ce7..2abd6dd 100644
--- a/page/page.go
+++ b/page/page.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 
 	"github.com/DaoCloud/ckube/common/constants"
@@ -65,6 +64,12 @@ func parseValue(v string) (string, bool) {
 	return v, false
 }
 
+// quote surrounds an index value with double quotes, so that a quoted search value
+// matches the whole of it. The value itself is not escaped, search values are not either.
+func quote(v string) string {
+	return "\"" + v + "\""
+}
+
 func Match(m map[string]string, searchParts []string) (bool, error) {
 	if len(searchParts) != 1 {
 		matched := 0
@@ -115,7 +120,7 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 		if v, ok := m[key]; !ok {
 			return false, fmt.Errorf("unexpected search key: %s", key)
 		} else {
-			vv := strings.Contains(strconv.Quote(v), value)
+			vv := strings.Contains(quote(v), value)
 			if reverse {
 				return !vv, nil
 			}
@@ -124,7 +129,7 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 	}
 	// fuzzy search
 	for _, v := range m {
-		vv := strings.Contains(strconv.Quote(v), value)
+		vv := strings.Contains(quote(v), value)
 		if reverse {
 			if vv {
 				return false, nil
-- 
2.43.0


From 671534a5fce4cedf94d1e90bc1d66c0e0cd5acb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 04/45] fix: keep every equality requirement of a label
 selector

---
 kube/label.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kube/label.go b/kube/label.go
index e3df13e..e9c2512 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -65,6 +65,15 @@ func ParseToLabelSelector(selector string) (*v1.LabelSelector, error) {
 			if !ok {
 				return nil, fmt.Errorf("equals operator has exactly one value but it cannot be retrieved")
 			}
+			if first, ok := labelSelector.MatchLabels[req.Key()]; ok && first != val {
+				// MatchLabels has room for one value per key, keep the other requirement too.
+				labelSelector.MatchExpressions = append(labelSelector.MatchExpressions, v1.LabelSelectorRequirement{
+					Key:      req.Key(),
+					Operator: v1.LabelSelectorOpIn,
+					Values:   []string{val},
+				})
+				continue
+			}
 			labelSelector.MatchLabels[req.Key()] = val
 			continue
 		case selection.In:
-- 
2.43.0


From e97014fe3634d470d1e80fd07d1b948d9b9ec597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 05/45] fix: page arithmetic for unpaged, negative and out of
 range page requests

---
 api/proxy.go           | 26 ++++++++++----------------
 page/page.go           | 29 ++++++++++++++++++++++++++++-
 store/memory/memory.go | 22 ++++++----------------
 3 files changed, 44 insertions(+), 33 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 2c7ce8b..a696846 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -265,20 +265,14 @@ func Proxy(r *ReqContext) interface{} {
 
 		// manually slice items
 		var l = int64(len(items))
-		var start, end int64
-		if paginate.PageSize == 0 || paginate.Page == 0 {
-			// all resources
-			start = 0
-			end = l
-		} else {
-			start = (paginate.Page - 1) * paginate.PageSize
-			end = start + paginate.PageSize
-			if start >= l {
-				start = l
-			}
-			if end >= l {
-				end = l
-			}
+		start, end, err := paginate.Window(l)
+		if err != nil {
+			return errorProxy(r.Writer, v1.Status{
+				Status:  v1.StatusFailure,
+				Message: "query error",
+				Reason:  v1.StatusReason(err.Error()),
+				Code:    400,
+			})
 		}
 		items = items[start:end]
 		total = l
@@ -305,13 +299,13 @@ func Proxy(r *ReqContext) interface{} {
 		apiVersion = gvr.Group + "/" + gvr.Version
 	}
 	var remainCount int64
-	if paginate.Page == 0 && paginate.PageSize == 0 {
+	if paginate.Page == 0 || paginate.PageSize == 0 {
 		// all item returned
 		remainCount = 0
 	} else {
 		// page starts with 1,
 		remainCount = total - (paginate.PageSize * paginate.Page)
-		if remainCount < 0 && len(items) == 0 && paginate.Page != 1 {
+		if len(items) == 0 && paginate.Page != 1 {
 			return errorProxy(r.Writer, v1.Status{
 				Status:  v1.StatusFailure,
 				Message: "out of page",
diff --git a/page/page.go b/page/page.go
index 2abd6dd..b6573db 100644
--- a/page/page.go
+++ b/page/page.go
@@ -26,6 +26,30 @@ func (p *Paginate) Match(m map[string]string) (bool, error) {
 	return Match(m, parts)
 }
 
+// Window returns the positions [start, end) of the page in a list of total resources.
+// Page or PageSize of 0 means no pagination, less than 0 is illegal.
+func (p *Paginate) Window(total int64) (start int64, end int64, err error) {
+	if p.Page < 0 || p.PageSize < 0 {
+		return 0, 0, fmt.Errorf("page and page size can not be negative")
+	}
+	if p.Page == 0 || p.PageSize == 0 {
+		return 0, total, nil
+	}
+	if p.Page-1 > total/p.PageSize {
+		// out of page, and the multiplication below may overflow.
+		return total, total, nil
+	}
+	start = (p.Page - 1) * p.PageSize
+	if start >= total {
+		return total, total, nil
+	}
+	end = total
+	if p.PageSize < total-start {
+		end = start + p.PageSize
+	}
+	return start, end, nil
+}
+
 func (p *Paginate) SearchParts() []string {
 	search := p.Search
 	parts := []string{}
@@ -358,7 +382,10 @@ func MakeupResPaginate(l v1.ListInterface, page Paginate) Paginate {
 		var i int64 = 0
 		remain = &i
 	}
-	page.Total = *remain + (page.Page-1)*page.PageSize + int64(items)
+	page.Total = *remain + int64(items)
+	if page.Page > 0 {
+		page.Total += (page.Page - 1) * page.PageSize
+	}
 	return page
 }
 
diff --git a/store/memory/memory.go b/store/memory/memory.go
index 84c3ab8..2a82981 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -306,30 +306,20 @@ func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) s
 		})
 	})
 	l := int64(len(resources))
+	start, end, err := query.Window(l)
+	if err != nil {
+		res.Error = err
+		return res
+	}
 	if l == 0 {
 		return res
 	}
-	resources, err := sortObjs(resources, query.Sort)
+	resources, err = sortObjs(resources, query.Sort)
 	if err != nil {
 		res.Error = err
 		return res
 	}
 	res.Total = l
-	var start, end int64
-	if query.PageSize == 0 {
-		// all resources
-		start = 0
-		end = l
-	} else {
-		start = (query.Page - 1) * query.PageSize
-		end = start + query.PageSize
-		if start >= l {
-			start = l
-		}
-		if end >= l {
-			end = l
-		}
-	}
 	for _, r := range resources[start:end] {
 		res.Items = append(res.Items, r.Obj)
 	}
-- 
2.43.0


From 8a4c304c77f5afbf1b2ebda9421f2ee693db6b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 06/45] fix: report sort keys with surplus words instead of not
 sorting at all

---
 store/memory/memory.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 2a82981..1aea662 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -195,19 +195,17 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			typ:     constants.KeyTypeStr,
 		}
 		if strings.Contains(s, " ") {
-			parts := strings.Split(s, " ")
-			if len(parts) > 2 {
-				return objs, nil
+			parts := strings.Fields(s)
+			if len(parts) != 2 {
+				return objs, fmt.Errorf("error sort format `%s`", s)
 			}
-			if len(parts) == 2 {
-				switch parts[1] {
-				case constants.SortDesc:
-					st.reverse = true
-				case constants.SortASC:
-					st.reverse = false
-				default:
-					return objs, fmt.Errorf("error sort format `%s`", parts[1])
-				}
+			switch parts[1] {
+			case constants.SortDesc:
+				st.reverse = true
+			case constants.SortASC:
+				st.reverse = false
+			default:
+				return objs, fmt.Errorf("error sort format `%s`", parts[1])
 			}
 			// override s
 			s = parts[0]
-- 
2.43.0


From e07822edf4d1cc41581e46553a8a26f0d0825eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 07/45] fix: order resources with equal sort keys by cluster,
 namespace and name

---
 store/memory/memory.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 1aea662..8e5a7fd 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -241,12 +242,12 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			if s.typ == constants.KeyTypeInt {
 				keyErr := fmt.Errorf("value of `%s` can not convert to number", s.key)
 				vi, err := strconv.ParseFloat(vis, 64)
-				if err != nil {
+				if err != nil || math.IsNaN(vi) {
 					sortErr = keyErr
 					break
 				}
 				vj, err := strconv.ParseFloat(vjs, 64)
-				if err != nil {
+				if err != nil || math.IsNaN(vj) {
 					sortErr = keyErr
 					break
 				}
@@ -264,7 +265,15 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			}
 			return r
 		}
-		return true
+		// the order must not depend on the order of objs, otherwise pages overlap
+		for _, key := range []string{"cluster", "namespace", "name"} {
+			vis := objs[i].Index[key]
+			vjs := objs[j].Index[key]
+			if vis != vjs {
+				return vis < vjs
+			}
+		}
+		return false
 	})
 	return objs, sortErr
 }
-- 
2.43.0


From ab5c1bc54bb4a3beadfd04a9c3be9249bc16636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 08/45] fix: merge more than 179 label values in the order they
 were split

---
 kube/label.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kube/label.go b/kube/label.go
index e9c2512..284b3d7 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -31,7 +31,14 @@ func MergeValues(values []string) (string, error) {
 	if len(values) == 1 {
 		return values[0], nil
 	}
-	sort.Strings(values)
+	sort.Slice(values, func(i, j int) bool {
+		// the positions in front of the dots have at least 4 digits, those from 10000 on have more.
+		pi, pj := strings.Index(values[i], "."), strings.Index(values[j], ".")
+		if pi != pj {
+			return pi < pj
+		}
+		return values[i] < values[j]
+	})
 	b := strings.Builder{}
 	for _, v := range values {
 		parts := strings.Split(v, ".")
-- 
2.43.0


From 4b7b033232b31248c1f7bdf8a458c8179becfe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 09/45] fix: encode page queries with any text as legal label
 values

---
 page/page.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/page/page.go b/page/page.go
index b6573db..0d3801e 100644
--- a/page/page.go
+++ b/page/page.go
@@ -1,11 +1,14 @@
 package page
 
 import (
+	"bytes"
 	"encoding/base64"
 	"encoding/json"
 	"fmt"
 	"reflect"
 	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/DaoCloud/ckube/common/constants"
 	"github.com/DaoCloud/ckube/kube"
@@ -331,12 +334,28 @@ func QueryDeleteOptions(options v1.DeleteOptions, cluster string) (v1.DeleteOpti
 	return options, nil
 }
 
+// labelSafe escapes the characters of a JSON text that make its base64 form contain '+' or '/',
+// which can not be part of a label value.
+func labelSafe(bs []byte) []byte {
+	b := bytes.Buffer{}
+	for _, r := range string(bs) {
+		if r < utf8.RuneSelf && r != '?' && r != '~' && r != '\x7f' {
+			b.WriteRune(r)
+			continue
+		}
+		for _, u := range utf16.Encode([]rune{r}) {
+			fmt.Fprintf(&b, "\\u%04x", u)
+		}
+	}
+	return b.Bytes()
+}
+
 func QueryListOptions(options v1.ListOptions, page Paginate) (v1.ListOptions, error) {
 	bs, _ := json.Marshal(page)
 	if string(bs) == "{}" {
 		return options, nil
 	}
-	s := base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString(bs)
+	s := base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString(labelSafe(bs))
 	//if options.LabelSelector == "" {
 	//	options.LabelSelector = fmt.Sprintf("%s notin (%s)", common.PaginateKey, s)
 	//	return options
-- 
2.43.0


From 636698cec2d498abb24495b9af7a1ac3202a0586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 10/45] fix: keep every advanced search part when namespaces or
 clusters are set

---
 page/page.go | 54 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/page/page.go b/page/page.go
index 0d3801e..566d42b 100644
--- a/page/page.go
+++ b/page/page.go
@@ -170,26 +170,44 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 	return reverse, nil
 }
 
+// SearchSelector returns the requirements of all advanced parts of the search.
 func (p *Paginate) SearchSelector() (*v1.LabelSelector, error) {
-	s := v1.LabelSelector{}
-	parts := p.SearchParts()
-	search := ""
-	for _, part := range parts {
-		if strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
-			search = part
-			break
+	s := &v1.LabelSelector{}
+	for _, part := range p.SearchParts() {
+		if !isAdvanced(part) {
+			continue
 		}
+		search := strings.TrimSpace(part)
+		if len(constants.AdvancedSearchPrefix) == len(search) {
+			continue
+		}
+		ls, err := kube.ParseToLabelSelector(search[len(constants.AdvancedSearchPrefix):])
+		if err != nil {
+			return nil, err
+		}
+		if s.MatchLabels == nil {
+			s = ls
+			continue
+		}
+		for k, v := range ls.MatchLabels {
+			if first, ok := s.MatchLabels[k]; ok && first != v {
+				s.MatchExpressions = append(s.MatchExpressions, v1.LabelSelectorRequirement{
+					Key:      k,
+					Operator: v1.LabelSelectorOpIn,
+					Values:   []string{v},
+				})
+				continue
+			}
+			s.MatchLabels[k] = v
+		}
+		s.MatchExpressions = append(s.MatchExpressions, ls.MatchExpressions...)
 	}
-	if search == "" {
-		return &s, nil
-	}
-	if !strings.HasPrefix(search, constants.AdvancedSearchPrefix) {
-		return nil, fmt.Errorf("")
-	}
-	if len(constants.AdvancedSearchPrefix) == len(search) {
-		return &s, nil
-	}
-	return kube.ParseToLabelSelector(search[len(constants.AdvancedSearchPrefix):])
+	return s, nil
+}
+
+// isAdvanced tells whether Match takes a search part as a selector.
+func isAdvanced(part string) bool {
+	return strings.HasPrefix(strings.TrimSpace(part), constants.AdvancedSearchPrefix)
 }
 
 func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
@@ -200,7 +218,7 @@ func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
 	}
 	pps := []string{constants.AdvancedSearchPrefix + sstr}
 	for _, part := range parts {
-		if !strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
+		if !isAdvanced(part) {
 			pps = append(pps, part)
 		}
 	}
-- 
2.43.0


From 79d01141a3a077dbd0e1b087b338659b5b3cefe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 11/45] fix: treat cluster=x like cluster in (x) when clusters
 are read or replaced

---
 page/page.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/page/page.go b/page/page.go
index 566d42b..f044a37 100644
--- a/page/page.go
+++ b/page/page.go
@@ -259,6 +259,7 @@ func (p *Paginate) Namespaces(nss []string) error {
 			Values:   nss,
 		},
 	}
+	delete(s.MatchLabels, nsKey)
 	for _, r := range s.MatchExpressions {
 		if r.Key != nsKey {
 			mes = append(mes, r)
@@ -286,6 +287,7 @@ func (p *Paginate) Clusters(css []string) error {
 			Values:   css,
 		},
 	}
+	delete(s.MatchLabels, nsKey)
 	for _, r := range s.MatchExpressions {
 		if r.Key != nsKey {
 			mes = append(mes, r)
@@ -304,6 +306,9 @@ func (p *Paginate) GetClusters() []string {
 		return nil
 	}
 	nsKey := "cluster"
+	if c, ok := s.MatchLabels[nsKey]; ok {
+		return []string{c}
+	}
 	for _, r := range s.MatchExpressions {
 		if r.Key == nsKey {
 			return r.Values
-- 
2.43.0


From 91ce275203653bb9a3df0fe1fdd2ae9ef97610e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 12/45] fix: keep lists to the default cluster when its name is
 no label value

---
 api/proxy.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index a696846..121bd14 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -220,9 +220,12 @@ func Proxy(r *ReqContext) interface{} {
 	// If you want to get all clusters' resources,
 	// please call paginate.Clusters() before fetch resources
 	if cs := paginate.GetClusters(); len(cs) == 0 {
-		err = paginate.Clusters([]string{common.GetConfig().DefaultCluster})
+		defaultCluster := common.GetConfig().DefaultCluster
+		err = paginate.Clusters([]string{defaultCluster})
 		if err != nil {
 			log.Errorf("set cluster error: %v", err)
+			// e.g. the name is not a legal label value, but the list must be kept to this cluster.
+			paginate.SetSearchWithParts(append(paginate.SearchParts(), fmt.Sprintf("cluster=\"%s\"", defaultCluster)))
 		}
 	}
 	log.Debugf("got paginate %v", paginate)
-- 
2.43.0


From acaaa82e4333cbe3dcb2ce36bbb866c660bb4e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:52 +0000
Subject: [PATCH 13/45] fix: pass the options of a delete request on to the
 cluster

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 121bd14..373e95a 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -119,6 +119,8 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 		body := r.Body
 		opts, err := io.ReadAll(body)
 		if err == nil {
+			// the body is consumed, but it may have to be passed on.
+			r.Body = wrapReader(bytes.NewBuffer(opts))
 			options := v1.DeleteOptions{}
 			_ = json.Unmarshal(opts, &options)
 			if len(options.DryRun) > 0 && strings.HasPrefix(options.DryRun[0], clusterPrefix) {
-- 
2.43.0


From 26fd8c681c193ef83fdf02eba9d3502435284c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 14/45] fix: forward HEAD and OPTIONS requests instead of
 failing with a nil request

---
 api/proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 373e95a..8550da0 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -476,8 +476,8 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Requ
 	case http.MethodPatch:
 		req = c.Patch(types.PatchType(r.Request.Header.Get("Content-Type")))
 	default:
-		log.Errorf("unexpected method: %s", r.Request.Method)
-		return nil
+		// e.g. HEAD and OPTIONS
+		req = c.Verb(r.Request.Method)
 	}
 	// for k, v := range r.Request.Header {
 	//	if len(v) > 0 {
-- 
2.43.0


From 123a01921a16b8ffb851b4d2727d910163d6c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 15/45] fix: relay exactly the bytes a watch stream delivers

---
 api/proxy.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 8550da0..bfeef46 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -442,13 +442,14 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	buf := bytes.NewBuffer([]byte{})
 	for {
 		t := make([]byte, 1)
-		_, err := reader.Read(t)
+		n, err := reader.Read(t)
+		// the last byte may come along with the error, and no byte without one.
+		buf.Write(t[:n])
 		if err != nil {
 			_, _ = r.Writer.Write(buf.Bytes())
 			return nil
 		}
-		buf.Write(t)
-		if t[0] == '\n' {
+		if n > 0 && t[0] == '\n' {
 			_, _ = r.Writer.Write(buf.Bytes())
 			buf.Reset()
 		}
-- 
2.43.0


From 0dacee270cf1a2e426c1b86c67276b74c794cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 16/45] fix: give every forwarded request its own timeout
 instead of changing the shared client's

---
 api/proxy.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index bfeef46..6589b55 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -462,8 +462,13 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 }
 
 func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Request {
-	c := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
-	c.Client.Timeout = timeout
+	shared := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
+	// requests run concurrently and have different timeouts, so set it on copies.
+	client := *shared.Client
+	client.Timeout = timeout
+	copied := *shared
+	copied.Client = &client
+	c := &copied
 	var req *rest.Request
 	switch r.Request.Method {
 	case http.MethodGet:
-- 
2.43.0


From a3eaf5cf7629e62f2ab8d35966ac6e32b27a7443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 17/45] fix: send the whole body again when a throttled request
 is retried

---
 api/proxy.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 6589b55..36754f2 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -490,8 +490,13 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Requ
 	//		req = req.SetHeader(k, v[0])
 	//	}
 	// }
-	req = req.Body(r.Request.Body)
-	return req
+	bs, err := io.ReadAll(r.Request.Body)
+	if err != nil {
+		log.Warnf("read body error: %v", err)
+		return req.Body(io.MultiReader(bytes.NewReader(bs), r.Request.Body))
+	}
+	// the client retries a throttled request, so it must be able to read the body again.
+	return req.Body(bs)
 }
 
 func proxyPass(r *ReqContext, cluster string) interface{} {
-- 
2.43.0


From 0e52db9b10b11be8a29f47001c8a67bf30379a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 18/45] fix: answer the services of the deployment asked for,
 not of one with a similar name

---
 api/extend/deploy2service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 1dada9e..008d678 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -47,7 +47,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	for _, podIf := range res.Items {
 		if pod, ok := podIf.(v12.Object); ok {
 			depName := getDeploymentName(pod)
-			if depName != "" {
+			if depName == dep {
 				labels = pod.GetLabels()
 				break
 			}
-- 
2.43.0


From d5fb869f34cf229d7c3391661ae4e395491dff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 19/45] fix: a service with an empty selector belongs to no
 deployment

---
 api/extend/deploy2service.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 008d678..d0a1555 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -70,7 +70,8 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		} else {
 			svc = svcIf.(*v1.Service)
 		}
-		if svc.Spec.Selector != nil && utils.IsSubsetOf(svc.Spec.Selector, labels) {
+		// a service without selector selects no pod
+		if len(svc.Spec.Selector) != 0 && utils.IsSubsetOf(svc.Spec.Selector, labels) {
 			services = append(services, svc)
 		}
 	}
-- 
2.43.0


From 1b2f8b1a406b2b6050d3ac38cba00d0a3e33c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 20/45] fix: keep the services of a deployment to its cluster
 whatever that is called

---
 api/extend/deploy2service.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index d0a1555..c08e4e6 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -1,6 +1,7 @@
 package extend
 
 import (
+	"fmt"
 	"strings"
 
 	"github.com/gorilla/mux"
@@ -34,8 +35,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	if cluster == "" {
 		cluster = common.GetConfig().DefaultCluster
 	}
-	p := page.Paginate{Search: "name=" + dep}
-	_ = p.Clusters([]string{cluster})
+	p := inCluster(page.Paginate{Search: "name=" + dep}, cluster)
 	res := r.Store.Query(podGvr, store.Query{
 		Namespace: ns,
 		Paginate:  p,
@@ -53,8 +53,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 			}
 		}
 	}
-	p = page.Paginate{}
-	_ = p.Clusters([]string{cluster})
+	p = inCluster(page.Paginate{}, cluster)
 	res = r.Store.Query(svcGvr, store.Query{
 		Namespace: ns,
 		Paginate:  p,
@@ -78,6 +77,15 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	return services
 }
 
+// inCluster keeps a query to one cluster.
+func inCluster(p page.Paginate, cluster string) page.Paginate {
+	if err := p.Clusters([]string{cluster}); err != nil {
+		// e.g. kubernetes-admin@kubernetes is not a legal label value
+		p.SetSearchWithParts(append(p.SearchParts(), fmt.Sprintf("cluster=\"%s\"", cluster)))
+	}
+	return p
+}
+
 func getDeploymentName(pod v12.Object) string {
 	if len(pod.GetOwnerReferences()) == 0 || pod.GetOwnerReferences()[0].Kind != "ReplicaSet" {
 		return ""
-- 
2.43.0


From c11bf9045d35a99faa49f48f38e165e6b848495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 21/45] fix: an object whose kind is no string must not end the
 process

---
 watcher/watcher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 5a205ab..4cf0351 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -53,10 +53,10 @@ func (o *ObjType) UnmarshalJSON(bytes []byte) error {
 	m := map[string]interface{}{}
 	_ = json.Unmarshal(bytes, &m)
 	if v, ok := m["apiVersion"]; ok {
-		o.APIVersion = v.(string)
+		o.APIVersion, _ = v.(string)
 	}
 	if v, ok := m["kind"]; ok {
-		o.Kind = v.(string)
+		o.Kind, _ = v.(string)
 	}
 	if meta, ok := m["metadata"]; ok {
 		bs, _ := json.Marshal(meta)
-- 
2.43.0


From a4b063faefe06fefae953867ed38558880ad3b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 22/45] fix: keep large integers of resources without Go type

---
 watcher/watcher.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 4cf0351..cdc5a84 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -11,6 +11,7 @@ import (
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	utiljson "k8s.io/apimachinery/pkg/util/json"
 	"k8s.io/apimachinery/pkg/watch"
 	"k8s.io/client-go/kubernetes/scheme"
 	"k8s.io/client-go/rest"
@@ -51,7 +52,8 @@ type ObjType struct {
 
 func (o *ObjType) UnmarshalJSON(bytes []byte) error {
 	m := map[string]interface{}{}
-	_ = json.Unmarshal(bytes, &m)
+	// keeps integers, which a float64 has no room for beyond 2^53
+	_ = utiljson.Unmarshal(bytes, &m)
 	if v, ok := m["apiVersion"]; ok {
 		o.APIVersion, _ = v.(string)
 	}
-- 
2.43.0


From 3a3416bff752111843a8df080b759be7308a87c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 23/45] fix: copies of resources without Go type share nothing
 with the original

---
 watcher/watcher.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index cdc5a84..e6c908b 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -104,15 +104,39 @@ func (o ObjType) DeepCopyObject() runtime.Object {
 	// defer o.lock.Unlock()
 	m := map[string]interface{}{}
 	for k, v := range o.Data {
-		m[k] = v
+		m[k] = deepCopyValue(v)
 	}
 	return &ObjType{
 		TypeMeta:   o.TypeMeta,
-		ObjectMeta: o.ObjectMeta,
+		ObjectMeta: *o.ObjectMeta.DeepCopy(),
 		Data:       m,
 	}
 }
 
+func deepCopyValue(v interface{}) interface{} {
+	switch v := v.(type) {
+	case map[string]interface{}:
+		if v == nil {
+			return v
+		}
+		m := make(map[string]interface{}, len(v))
+		for k, e := range v {
+			m[k] = deepCopyValue(e)
+		}
+		return m
+	case []interface{}:
+		if v == nil {
+			return v
+		}
+		s := make([]interface{}, len(v))
+		for i, e := range v {
+			s[i] = deepCopyValue(e)
+		}
+		return s
+	}
+	return v
+}
+
 func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	gvk := schema.GroupVersionKind{
 		Group:   r.Group,
-- 
2.43.0


From e4e9969d33f315f8816148560fbc7d1276422856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 24/45] fix: index integer fields as they are written

---
 utils/utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index 071c8e1..b6ac8af 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -1,10 +1,15 @@
 package utils
 
-import "encoding/json"
+import (
+	"encoding/json"
+
+	utiljson "k8s.io/apimachinery/pkg/util/json"
+)
 
 func Obj2JSONMap(obj interface{}) map[string]interface{} {
 	m := make(map[string]interface{})
 	bs, _ := json.Marshal(obj)
-	_ = json.Unmarshal(bs, &m)
+	// keeps integers, a float64 is printed as 1e+06
+	_ = utiljson.Unmarshal(bs, &m)
 	return m
 }
-- 
2.43.0


From 3e31a1a4bef3d1293199fef740bb63effcc79826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 25/45] fix: template functions default and quote take numbers
 and booleans

---
 store/memory/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 8e5a7fd..134428b 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -338,10 +338,10 @@ var funMap = map[string]interface{}{
 		if pre == nil {
 			return def
 		}
-		return fmt.Sprintf("%s", pre)
+		return fmt.Sprint(pre)
 	},
 	"quote": func(pre interface{}) string {
-		return fmt.Sprintf("%q", pre)
+		return fmt.Sprintf("%q", fmt.Sprint(pre))
 	},
 	"join": func(sep string, ins ...string) string {
 		return strings.Join(ins, sep)
-- 
2.43.0


From 83ee7d858113de2d1607af21357800626d26dfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 26/45] fix: keep the user's selector, refuse illegal clusters
 and pass on kubectl's status in the plugin

---
 cmd/ckube-plugin/main.go | 60 ++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index afe35a8..96460b5 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -22,16 +22,20 @@ func main() {
 	clusters := ""
 	args := []string{}
 	typ := notSupport
-	selectorPos := 0
+	// position of the selector in args and the flag it is joined to, if any
+	selectorPos, selectorFlag := -1, ""
 	for i := 1; i < len(os.Args); i++ {
 		a := os.Args[i]
-		switch a {
-		case "get":
-			typ = get
-		case "create":
-			typ = create
-			// case "delete":
-			//	typ = del
+		if typ == notSupport {
+			// only the first subcommand counts, later words are its arguments
+			switch a {
+			case "get":
+				typ = get
+			case "create":
+				typ = create
+				// case "delete":
+				//	typ = del
+			}
 		}
 		if a == "--clusters" {
 			if i+1 < len(os.Args) {
@@ -42,10 +46,19 @@ func main() {
 		} else {
 			args = append(args, a)
 		}
-		if a == "-l" || a == "--selector" {
+		switch {
+		case a == "-l" || a == "--selector":
 			if i+1 < len(os.Args) {
-				selectorPos = i + 1
+				i++
+				args = append(args, os.Args[i])
+				selectorPos, selectorFlag = len(args)-1, ""
 			}
+		case strings.HasPrefix(a, "--selector="):
+			selectorPos, selectorFlag = len(args)-1, "--selector="
+		case strings.HasPrefix(a, "-l="):
+			selectorPos, selectorFlag = len(args)-1, "-l="
+		case strings.HasPrefix(a, "-l"):
+			selectorPos, selectorFlag = len(args)-1, "-l"
 		}
 	}
 	if typ == notSupport {
@@ -59,18 +72,25 @@ func main() {
 		switch typ {
 		case get:
 			p := page.Paginate{}
-			_ = p.Clusters(cs)
+			if err := p.Clusters(cs); err != nil {
+				log.Errorf("illegal clusters %v: %v", clusters, err)
+				os.Exit(2)
+			}
 			selector := ""
-			if selectorPos != 0 {
-				selector = args[selectorPos]
+			if selectorPos != -1 {
+				selector = strings.TrimPrefix(args[selectorPos], selectorFlag)
 			}
-			o, _ := page.QueryListOptions(metav1.ListOptions{
+			o, err := page.QueryListOptions(metav1.ListOptions{
 				LabelSelector: selector,
 			}, p)
-			if selectorPos == 0 {
+			if err != nil {
+				log.Errorf("illegal selector %v: %v", selector, err)
+				os.Exit(2)
+			}
+			if selectorPos == -1 {
 				args = append(args, "-l", o.LabelSelector)
 			} else {
-				args[selectorPos] = o.LabelSelector
+				args[selectorPos] = selectorFlag + o.LabelSelector
 			}
 		case create, update:
 			if len(cs) > 1 {
@@ -88,5 +108,11 @@ func main() {
 	c.Stdin = os.Stdin
 	c.Stdout = os.Stdout
 	c.Stderr = os.Stderr
-	_ = c.Run()
+	if err := c.Run(); err != nil {
+		if e, ok := err.(*exec.ExitError); ok {
+			os.Exit(e.ExitCode())
+		}
+		log.Errorf("run kubectl error: %v", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 9d8b03564cf8e8a554b6a48161993b0445626581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 27/45] fix: cache resources whose kind ends in a letter of
 List

---
 watcher/watcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index e6c908b..a8d56df 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -141,7 +141,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	gvk := schema.GroupVersionKind{
 		Group:   r.Group,
 		Version: r.Version,
-		Kind:    strings.TrimRight(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
+		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
 	}
 	gv := schema.GroupVersion{
 		Group:   r.Group,
-- 
2.43.0


From d2011a9fc9b7f11e33b792712449202d084c5bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 28/45] fix: refuse clusters that can not be named in ckubecli

---
 cmd/ckubecli/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/ckubecli/main.go b/cmd/ckubecli/main.go
index 721b787..f8ef991 100644
--- a/cmd/ckubecli/main.go
+++ b/cmd/ckubecli/main.go
@@ -31,7 +31,10 @@ func main() {
 	}
 	if clusters != "" {
 		ccs := strings.Split(clusters, ",")
-		_ = p.Clusters(ccs)
+		if err := p.Clusters(ccs); err != nil {
+			fmt.Fprintf(os.Stderr, "clusters error: %v", err)
+			os.Exit(1)
+		}
 	}
 	o, err := page.QueryListOptions(v1.ListOptions{}, p)
 	if err != nil {
-- 
2.43.0


From bf33c4beba3f2fbe08e25592f3fccfd257182627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 29/45] fix: replace the store and the clients of a serving
 server under a lock

---
 server/server.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/server/server.go b/server/server.go
index 2f87510..3666ced 100644
--- a/server/server.go
+++ b/server/server.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"runtime/debug"
 	"strings"
+	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -29,10 +30,12 @@ type Server interface {
 }
 
 type muxServer struct {
-	LogLevel       string
-	ListenAddr     string
-	router         *mux.Router
-	server         *http.Server
+	LogLevel   string
+	ListenAddr string
+	router     *mux.Router
+	server     *http.Server
+	// lock guards store and clusterClients, which ResetStore replaces while requests are served.
+	lock           sync.RWMutex
 	store          store.Store
 	clusterClients map[string]kubernetes.Interface
 }
@@ -117,6 +120,8 @@ func (m *muxServer) Stop() error {
 }
 
 func (m *muxServer) ResetStore(s store.Store, clis map[string]kubernetes.Interface) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
 	m.store = s
 	m.clusterClients = clis
 }
@@ -162,9 +167,12 @@ func (m *muxServer) registerRoutes(router *mux.Router, handleRoutes []route) {
 						return
 					}
 				}
+				m.lock.RLock()
+				clis, s := m.clusterClients, m.store
+				m.lock.RUnlock()
 				var res = route.handler(&api.ReqContext{
-					ClusterClients: m.clusterClients,
-					Store:          m.store,
+					ClusterClients: clis,
+					Store:          s,
 					Request:        r,
 					Writer:         writer,
 				})
-- 
2.43.0


From ea85ef3ca64a943e60be6e288f9ac3252a45e42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 30/45] fix: replace the configuration under a lock

---
 common/config.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/common/config.go b/common/config.go
index a06eefc..05f7320 100644
--- a/common/config.go
+++ b/common/config.go
@@ -1,5 +1,7 @@
 package common
 
+import "sync"
+
 type Proxy struct {
 	Group    string            `json:"group"`
 	Version  string            `json:"version"`
@@ -19,21 +21,29 @@ type Config struct {
 	Token          string `json:"token"`
 }
 
-var cfg *Config
+var (
+	cfg *Config
+	// lock guards cfg, which is replaced on reload.
+	lock sync.RWMutex
+)
 
 func InitConfig(c *Config) {
 	if c.DefaultCluster == "" {
 		c.DefaultCluster = "default"
 	}
+	lock.Lock()
+	defer lock.Unlock()
 	cfg = c
 }
 
 func GetConfig() Config {
+	lock.RLock()
+	defer lock.RUnlock()
 	return *cfg
 }
 
 func GetGVRKind(g, v, r string) string {
-	for _, p := range cfg.Proxies {
+	for _, p := range GetConfig().Proxies {
 		if p.Group == g && p.Version == v && p.Resource == r {
 			return p.ListKind
 		}
-- 
2.43.0


From 6bb419d174ea5a720f2faa15ed868c9f83ea2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 31/45] fix: register kinds without Go type in a scheme no
 other goroutine uses

---
 watcher/watcher.go | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index a8d56df..4694f8b 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -5,12 +5,12 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
-	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	"k8s.io/apimachinery/pkg/runtime/serializer"
 	utiljson "k8s.io/apimachinery/pkg/util/json"
 	"k8s.io/apimachinery/pkg/watch"
 	"k8s.io/client-go/kubernetes/scheme"
@@ -26,7 +26,7 @@ type watcher struct {
 	resources      []store.GroupVersionResource
 	store          store.Store
 	stop           chan struct{}
-	lock           sync.Mutex
+	codecs         serializer.CodecFactory
 	Watcher
 }
 
@@ -137,29 +137,39 @@ func deepCopyValue(v interface{}) interface{} {
 	return v
 }
 
-func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
-	gvk := schema.GroupVersionKind{
-		Group:   r.Group,
-		Version: r.Version,
-		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
-	}
-	gv := schema.GroupVersion{
-		Group:   r.Group,
-		Version: r.Version,
+// newCodecs returns codecs that know the kinds of all resources.
+// Kinds without Go type go to a scheme of their own, as the global one is in use by other goroutines.
+func newCodecs(resources []store.GroupVersionResource) serializer.CodecFactory {
+	s := scheme.Scheme
+	for _, r := range resources {
+		gvk := schema.GroupVersionKind{
+			Group:   r.Group,
+			Version: r.Version,
+			Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
+		}
+		if _, ok := s.KnownTypes(gvk.GroupVersion())[gvk.Kind]; ok {
+			continue
+		}
+		if s == scheme.Scheme {
+			s = runtime.NewScheme()
+			_ = scheme.AddToScheme(s)
+		}
+		s.AddKnownTypeWithName(gvk, &ObjType{})
 	}
-	w.lock.Lock()
-	if _, ok := scheme.Scheme.KnownTypes(gv)[gvk.Kind]; !ok {
-		scheme.Scheme.AddKnownTypeWithName(gvk, &ObjType{})
+	if s == scheme.Scheme {
+		return scheme.Codecs
 	}
-	w.lock.Unlock()
+	return serializer.NewCodecFactory(s)
+}
+
+func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	config := w.clusterConfigs[cluster]
 
 	config.GroupVersion = &schema.GroupVersion{
 		Group:   r.Group,
 		Version: r.Version,
 	}
-	scheme.Codecs.UniversalDeserializer()
-	config.NegotiatedSerializer = scheme.Codecs.WithoutConversion()
+	config.NegotiatedSerializer = w.codecs.WithoutConversion()
 	rt, _ := rest.RESTClientFor(&config)
 	for {
 		select {
@@ -219,6 +229,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 }
 
 func (w *watcher) Start() error {
+	w.codecs = newCodecs(w.resources)
 	for _, r := range w.resources {
 		for c := range w.clusterConfigs {
 			go w.watchResources(r, c)
-- 
2.43.0


From ca76e849338d5133d3926db22572f6628ffbe7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 32/45] fix: evaluate every index field with a parser of its
 own

---
 store/memory/memory.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 134428b..199ef6c 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -354,9 +354,6 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 		Obj:   obj,
 	}
 	mobj := utils.Obj2JSONMap(obj)
-	jp := jsonpath.New("parser")
-	jp.AllowMissingKeys(true)
-	gotmpl := template.New("parser").Funcs(funMap)
 	for k, v := range m.indexConf[gvr] {
 		w := bytes.NewBuffer([]byte{})
 		var exec interface {
@@ -365,13 +362,15 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 		var err error
 		if strings.Contains(v, "{{") {
 			// go template
-			exec, err = gotmpl.Parse(v)
+			exec, err = template.New("parser").Funcs(funMap).Parse(v)
 		} else if !strings.Contains(v, "{") {
 			// raw string
 			s.Index[k] = v
 			continue
 		} else {
-			// json path
+			// json path, whose state after an error must not reach the next index
+			jp := jsonpath.New("parser")
+			jp.AllowMissingKeys(true)
 			_ = jp.Parse(v)
 			exec = jp
 		}
-- 
2.43.0


From 74404cba419878325c7083186913161723aee7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 33/45] fix: list the configured versions and kinds in the fake
 server's discovery

---
 pkg/client/fake/fake_ckube.go | 39 +++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 21daeb3..5437024 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -184,6 +184,9 @@ func resources(writer http.ResponseWriter, r *http.Request) {
 		res.GroupVersion = fmt.Sprintf("%s/%s", group, version)
 	}
 	for _, p := range common.GetConfig().Proxies {
+		if p.Group != group || p.Version != version {
+			continue
+		}
 		res.APIResources = append(res.APIResources, metav1.APIResource{
 			Name:         p.Resource,
 			SingularName: "",
@@ -217,24 +220,34 @@ func apis(writer http.ResponseWriter, r *http.Request) {
 	a := metav1.APIGroupList{}
 
 	for _, p := range common.GetConfig().Proxies {
-		find := false
-		for _, g := range a.Groups {
-			if g.Name == p.Group {
-				g.Versions = append(g.Versions, metav1.GroupVersionForDiscovery{
-					GroupVersion: fmt.Sprintf("%s/%s", p.Group, p.Version),
-					Version:      p.Version,
-				})
-				find = true
+		if p.Group == "" {
+			// the core group is listed by /api
+			continue
+		}
+		gv := metav1.GroupVersionForDiscovery{
+			GroupVersion: fmt.Sprintf("%s/%s", p.Group, p.Version),
+			Version:      p.Version,
+		}
+		var group *metav1.APIGroup
+		for i := range a.Groups {
+			if a.Groups[i].Name == p.Group {
+				group = &a.Groups[i]
 				break
 			}
 		}
-		if !find {
+		if group == nil {
 			a.Groups = append(a.Groups, metav1.APIGroup{
-				Name:                       p.Group,
-				Versions:                   nil,
-				PreferredVersion:           metav1.GroupVersionForDiscovery{},
-				ServerAddressByClientCIDRs: nil,
+				Name:             p.Group,
+				PreferredVersion: gv,
 			})
+			group = &a.Groups[len(a.Groups)-1]
+		}
+		find := false
+		for _, v := range group.Versions {
+			find = find || v == gv
+		}
+		if !find {
+			group.Versions = append(group.Versions, gv)
 		}
 	}
 	jsonResp(writer, 200, a)
-- 
2.43.0


From d0bb6fb1f6d201c1b6cd599169a5a2bbeadc3884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 34/45] fix: keep events for the fake server's watchers while
 they are busy

---
 pkg/client/fake/fake_ckube.go | 36 ++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 5437024..95cf62a 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -27,6 +27,9 @@ import (
 	"github.com/DaoCloud/ckube/watcher"
 )
 
+// watchBuffer is how many events a watcher may be behind.
+const watchBuffer = 1024
+
 type fakeCkubeServer struct {
 	store         store.Store
 	ser           server.Server
@@ -328,27 +331,31 @@ func (s *fakeCkubeServer) watch(writer http.ResponseWriter, r *http.Request) {
 		}
 	}
 
+	wc := make(chan Event, watchBuffer)
 	s.watchChanLock.Lock()
-	s.watchChanMap[r.RemoteAddr] = make(chan Event)
+	s.watchChanMap[r.RemoteAddr] = wc
 	s.watchChanLock.Unlock()
-	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
+	defer func() {
+		s.watchChanLock.Lock()
+		defer s.watchChanLock.Unlock()
+		if s.watchChanMap[r.RemoteAddr] == wc {
+			delete(s.watchChanMap, r.RemoteAddr)
+		}
+	}()
+	ctx, cancel := context.WithTimeout(r.Context(), 10*time.Minute)
 	defer cancel()
 	writer.Header().Set("Content-Type", "application/json")
 	writer.Header().Set("Transfer-Encoding", "chunked")
 	writer.Header().Set("Connection", "keep-alive")
 	writer.(http.Flusher).Flush()
 	for {
-		s.watchChanLock.RLock()
-		wc := s.watchChanMap[r.RemoteAddr]
-		s.watchChanLock.RUnlock()
 		select {
 		case <-ctx.Done():
-			s.watchChanLock.Lock()
-			close(s.watchChanMap[r.RemoteAddr])
-			delete(s.watchChanMap, r.RemoteAddr)
-			s.watchChanLock.Unlock()
 			return
-		case e := <-wc:
+		case e, ok := <-wc:
+			if !ok {
+				return
+			}
 			if e.Group == group &&
 				e.Version == version &&
 				e.Resource == resourceType &&
@@ -478,15 +485,18 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 	case s.eventChan <- e:
 	default:
 	}
-	s.watchChanLock.RLock()
+	s.watchChanLock.Lock()
 	for remote, c := range s.watchChanMap {
 		select {
 		case c <- e:
 			log.Debugf("succeed send stream to %s", remote)
 		default:
-			log.Infof("remote watcher %s no active stream", remote)
+			// it would miss this event, so its stream ends and it has to list again
+			log.Infof("remote watcher %s is too slow", remote)
+			close(c)
+			delete(s.watchChanMap, remote)
 		}
 	}
-	s.watchChanLock.RUnlock()
+	s.watchChanLock.Unlock()
 	jsonResp(writer, 200, obj)
 }
-- 
2.43.0


From 04e8bf6e5d3bd924f317867c13876631acd76d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 35/45] fix: apply changes in the fake server one at a time

---
 pkg/client/fake/fake_ckube.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 95cf62a..1756e18 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -31,6 +31,8 @@ import (
 const watchBuffer = 1024
 
 type fakeCkubeServer struct {
+	// storeLock orders changes of the store and the events they make.
+	storeLock     sync.Mutex
 	store         store.Store
 	ser           server.Server
 	kubeConfig    *rest.Config
@@ -106,6 +108,8 @@ func (s *fakeCkubeServer) Clean() {
 		}] = proxy.Index
 	}
 	m := memory.NewMemoryStore(indexConf)
+	s.storeLock.Lock()
+	defer s.storeLock.Unlock()
 	s.ser.ResetStore(m, nil)
 	s.store = m
 }
@@ -429,6 +433,8 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 	if resourceName == "" {
 		resourceName = obj.Name
 	}
+	s.storeLock.Lock()
+	defer s.storeLock.Unlock()
 	action := EventActionError
 	switch r.Method {
 	case "POST":
-- 
2.43.0


From e83299220c1468a08467f38db0fe14819169c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 36/45] fix: refuse requests the fake server can not serve

---
 pkg/client/fake/fake_ckube.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 1756e18..20ae3fa 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -292,8 +292,14 @@ func (s *fakeCkubeServer) watch(writer http.ResponseWriter, r *http.Request) {
 	}
 	paginate := page.Paginate{}
 	if labelSelectorStr != "" {
-		var err error
-		labels, _ := kube.ParseToLabelSelector(labelSelectorStr)
+		labels, err := kube.ParseToLabelSelector(labelSelectorStr)
+		if err != nil {
+			errorProxy(writer, metav1.Status{
+				Message: err.Error(),
+				Code:    400,
+			})
+			return
+		}
 		paginateStr := ""
 		if ps, ok := labels.MatchLabels[constants.PaginateKey]; ok {
 			paginateStr = ps
@@ -428,13 +434,34 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 		})
 		return
 	}
-	_ = json.Unmarshal(bs, &obj)
+	err = json.Unmarshal(bs, &obj)
+	if err != nil && r.Method != "DELETE" {
+		errorProxy(writer, metav1.Status{
+			Message: err.Error(),
+			Code:    400,
+		})
+		return
+	}
 	obj.Namespace = namespace
 	if resourceName == "" {
 		resourceName = obj.Name
 	}
+	if r.Method != "DELETE" && (resourceName == "" || resourceName != obj.Name) {
+		errorProxy(writer, metav1.Status{
+			Message: fmt.Sprintf("the name of the object (%s) is not the name of the resource (%s)", obj.Name, resourceName),
+			Code:    400,
+		})
+		return
+	}
 	s.storeLock.Lock()
 	defer s.storeLock.Unlock()
+	if !s.store.IsStoreGVR(gvr) {
+		errorProxy(writer, metav1.Status{
+			Message: fmt.Sprintf("resource %v not found", gvr),
+			Code:    404,
+		})
+		return
+	}
 	action := EventActionError
 	switch r.Method {
 	case "POST":
-- 
2.43.0


From af7653dd1905cf5c5ea04df9fe3b34c9ff46b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 37/45] fix: keep following config files that are moved away or
 made again late

---
 utils/fs_watcher.go | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/utils/fs_watcher.go b/utils/fs_watcher.go
index 4c16ab3..0783290 100644
--- a/utils/fs_watcher.go
+++ b/utils/fs_watcher.go
@@ -65,7 +65,10 @@ func (w *fixedFileWatcher) Start() error {
 		}
 	}
 	go func() {
-		for { // nolint:gosimple
+		// files that are gone, and whether that was told
+		lost := map[string]bool{}
+		var retry <-chan time.Time
+		for {
 			select {
 			case e, open := <-w.fswatcher.Events:
 				if !open {
@@ -76,22 +79,16 @@ func (w *fixedFileWatcher) Start() error {
 				switch e.Op {
 				case fsnotify.Write:
 					// do reload
-				case fsnotify.Remove:
+				case fsnotify.Remove, fsnotify.Rename:
 					// 在 Kubernetes 里面，当挂载 ConfigMap 的时候，如果发生文件重新，Kubernetes 会首先删除这个文件
 					// 再重新创建，所以我们应该在删除之后重新建立 watcher。
 					_ = w.fswatcher.Remove(e.Name)
-					time.Sleep(time.Second * 2)
 					// 等待一定时间之后重新加入 watcher 队列
-					err := w.fswatcher.Add(e.Name)
-					if err != nil {
-						log.Errorf("add watcher for %s error: %v", e.Name, err)
-						w.events <- Event{
-							Name: e.Name,
-							Type: EventTypeError,
-						}
-						continue
+					lost[e.Name] = false
+					if retry == nil {
+						retry = time.After(time.Second * 2)
 					}
-					// do reload
+					continue
 				default:
 					// do not reload
 					continue
@@ -100,6 +97,27 @@ func (w *fixedFileWatcher) Start() error {
 					Name: e.Name,
 					Type: EventTypeChanged,
 				}
+			case <-retry:
+				retry = nil
+				for name, told := range lost {
+					if err := w.fswatcher.Add(name); err == nil {
+						delete(lost, name)
+						w.events <- Event{
+							Name: name,
+							Type: EventTypeChanged,
+						}
+						continue
+					} else if !told {
+						log.Errorf("add watcher for %s error: %v", name, err)
+						lost[name] = true
+						w.events <- Event{
+							Name: name,
+							Type: EventTypeError,
+						}
+					}
+					// not back yet, try again later
+					retry = time.After(time.Second * 2)
+				}
 			}
 		}
 	}()
-- 
2.43.0


From 5add91b1d3514dbcccc4ca2d100a61de2bf9c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 38/45] fix: let the file watcher close cleanly and survive
 errors

---
 utils/fs_watcher.go | 47 +++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/utils/fs_watcher.go b/utils/fs_watcher.go
index 0783290..ed7e8d3 100644
--- a/utils/fs_watcher.go
+++ b/utils/fs_watcher.go
@@ -32,6 +32,7 @@ type fixedFileWatcher struct {
 	files     []string
 	fswatcher *fsnotify.Watcher
 	events    chan Event
+	done      chan struct{}
 }
 
 func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
@@ -39,6 +40,8 @@ func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
 	if err != nil {
 		return nil, err
 	}
+	// only checks the files, Start makes the watcher to use
+	defer w.Close()
 	for _, f := range files {
 		if _, err := os.Stat(f); err != nil {
 			return nil, err
@@ -50,6 +53,7 @@ func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
 	return &fixedFileWatcher{
 		files:  files,
 		events: make(chan Event),
+		done:   make(chan struct{}),
 	}, nil
 }
 
@@ -58,31 +62,44 @@ func (w *fixedFileWatcher) Start() error {
 	if err != nil {
 		return err
 	}
-	w.fswatcher = ww
 	for _, f := range w.files {
-		if err := w.fswatcher.Add(f); err != nil {
+		if err := ww.Add(f); err != nil {
+			ww.Close()
 			return err
 		}
 	}
+	w.fswatcher = ww
+	// only this goroutine sends, so it closes the channel
+	send := func(e Event) {
+		select {
+		case w.events <- e:
+		case <-w.done:
+		}
+	}
 	go func() {
+		defer close(w.events)
 		// files that are gone, and whether that was told
 		lost := map[string]bool{}
 		var retry <-chan time.Time
 		for {
 			select {
-			case e, open := <-w.fswatcher.Events:
+			case e, open := <-ww.Events:
 				if !open {
 					log.Info("fs watcher closed")
 					return
 				}
 				log.Infof("get file watcher event: %v", e)
+				if e.Name == "" {
+					// of a file no longer watched
+					continue
+				}
 				switch e.Op {
 				case fsnotify.Write:
 					// do reload
 				case fsnotify.Remove, fsnotify.Rename:
 					// 在 Kubernetes 里面，当挂载 ConfigMap 的时候，如果发生文件重新，Kubernetes 会首先删除这个文件
 					// 再重新创建，所以我们应该在删除之后重新建立 watcher。
-					_ = w.fswatcher.Remove(e.Name)
+					_ = ww.Remove(e.Name)
 					// 等待一定时间之后重新加入 watcher 队列
 					lost[e.Name] = false
 					if retry == nil {
@@ -93,27 +110,34 @@ func (w *fixedFileWatcher) Start() error {
 					// do not reload
 					continue
 				}
-				w.events <- Event{
+				send(Event{
 					Name: e.Name,
 					Type: EventTypeChanged,
+				})
+			case err, open := <-ww.Errors:
+				if !open {
+					return
 				}
+				// unread errors would block the events, and some may be lost
+				log.Errorf("file watcher error: %v", err)
+				send(Event{Type: EventTypeError})
 			case <-retry:
 				retry = nil
 				for name, told := range lost {
-					if err := w.fswatcher.Add(name); err == nil {
+					if err := ww.Add(name); err == nil {
 						delete(lost, name)
-						w.events <- Event{
+						send(Event{
 							Name: name,
 							Type: EventTypeChanged,
-						}
+						})
 						continue
 					} else if !told {
 						log.Errorf("add watcher for %s error: %v", name, err)
 						lost[name] = true
-						w.events <- Event{
+						send(Event{
 							Name: name,
 							Type: EventTypeError,
-						}
+						})
 					}
 					// not back yet, try again later
 					retry = time.After(time.Second * 2)
@@ -126,10 +150,9 @@ func (w *fixedFileWatcher) Start() error {
 
 func (w *fixedFileWatcher) Close() error {
 	if w.fswatcher != nil {
+		close(w.done)
 		w.fswatcher.Close()
 		w.fswatcher = nil
-		close(w.events)
-		w.events = nil
 	}
 	return nil
 }
-- 
2.43.0


From 22ef2ec1affef184ead7f3480f9effb914f038e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:22 +0000
Subject: [PATCH 39/45] fix: do not panic when the kube config changes while it
 is loaded

---
 cmd/cacheproxy/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 13d4ff1..2122d32 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -58,7 +58,11 @@ func GetK8sConfigConfigWithFile(kubeconfig, context string) *rest.Config {
 }
 
 func GetKubernetesClientWithFile(kubeconfig, context string) (kubernetes.Interface, error) {
-	clientset, err := kubernetes.NewForConfig(GetK8sConfigConfigWithFile(kubeconfig, context))
+	config := GetK8sConfigConfigWithFile(kubeconfig, context)
+	if config == nil {
+		return nil, fmt.Errorf("init k8s config error")
+	}
+	clientset, err := kubernetes.NewForConfig(config)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6a105e1fd0fd94a5036f89d648ef306b342e9e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 40/45] fix: refuse config files with proxies that name no
 version or resource

---
 cmd/cacheproxy/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 2122d32..7f1ff34 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -82,6 +82,13 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 			return nil, nil, nil, err
 		}
 	}
+	for _, proxy := range cfg.Proxies {
+		if proxy.Version == "" || proxy.Resource == "" {
+			err := fmt.Errorf("proxy of %s/%s/%s: version and resource are required", proxy.Group, proxy.Version, proxy.Resource)
+			log.Errorf("config file load error: %v", err)
+			return nil, nil, nil, err
+		}
+	}
 	clusterConfigs := map[string]rest.Config{}
 	clusterClients := map[string]kubernetes.Interface{}
 	kubecfg := kubeapi.Config{}
-- 
2.43.0


From bb8db588b460bb5275f83022be42da1303d864fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 41/45] fix: do not miss config changes made while starting

---
 cmd/cacheproxy/main.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 7f1ff34..bed1ff9 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -186,18 +186,13 @@ func main() {
 	if debug {
 		log.SetDebug()
 	}
-	clis, w, s, err := loadFromConfig(kubeConfig, configFile)
-	if err != nil {
-		log.Errorf("load from config file error: %v", err)
-		os.Exit(1)
-	}
-	ser := server.NewMuxServer(listen, clis, s)
 	files := []string{configFile}
 	if kubeConfig == "" {
 		files = append(files, defaultConfig)
 	} else {
 		files = append(files, kubeConfig)
 	}
+	// watch before loading, so that no change is missed
 	fixedWatcher, err := utils.NewFixedFileWatcher(files)
 	if err != nil {
 		log.Errorf("create watcher error: %v", err)
@@ -206,6 +201,14 @@ func main() {
 			panic(fmt.Errorf("watcher start error: %v", err))
 		}
 		defer fixedWatcher.Close()
+	}
+	clis, w, s, err := loadFromConfig(kubeConfig, configFile)
+	if err != nil {
+		log.Errorf("load from config file error: %v", err)
+		os.Exit(1)
+	}
+	ser := server.NewMuxServer(listen, clis, s)
+	if fixedWatcher != nil {
 		go func() {
 			for e := range fixedWatcher.Events() {
 				log.Infof("get file watcher event: %v", e)
-- 
2.43.0


From 8b2ce5b4568650fd5eb6b045b38c9f8e9a0e7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 42/45] fix: reload the config file where there is no kube
 config

---
 cmd/cacheproxy/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index bed1ff9..adfd8a9 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -188,7 +188,10 @@ func main() {
 	}
 	files := []string{configFile}
 	if kubeConfig == "" {
-		files = append(files, defaultConfig)
+		// there is none in a pod
+		if _, err := os.Stat(defaultConfig); err == nil {
+			files = append(files, defaultConfig)
+		}
 	} else {
 		files = append(files, kubeConfig)
 	}
-- 
2.43.0


From 8dc3d73cd01992c643638c7308168c4938ff5f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 43/45] fix: count resources as gone when a cluster's cache is
 cleaned

---
 store/memory/memory.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 199ef6c..faeefe0 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -137,9 +137,10 @@ func (m *memoryStore) Clean(gvr store.GroupVersionResource, cluster string) erro
 	if !m.resourceMap.Get(gvr).Exists(clusterName(cluster)) {
 		return fmt.Errorf("cluster %s not exists", cluster)
 	}
-	for _, c := range m.resourceMap.Get(gvr).Get(clusterName(cluster)).Values() {
+	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach(func(ns namespaceName, c *syncResourceStore[string, store.Object]) {
 		c.Clean()
-	}
+		prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, string(ns)).Set(0)
+	})
 	return nil
 }
 
-- 
2.43.0


From 3ef5f7c878eda91db8e77c4abc9d575b3e9954a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 44/45] fix: do not forget the counts of resources cached
 during a reload

---
 cmd/cacheproxy/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index adfd8a9..1f72be5 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -168,7 +168,6 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 	}
 	m := memory.NewMemoryStore(indexConf)
 	w := watcher.NewWatcher(clusterConfigs, storeGVRConfig, m)
-	_ = w.Start()
 	return clusterClients, w, m, nil
 }
 
@@ -210,6 +209,7 @@ func main() {
 		log.Errorf("load from config file error: %v", err)
 		os.Exit(1)
 	}
+	_ = w.Start()
 	ser := server.NewMuxServer(listen, clis, s)
 	if fixedWatcher != nil {
 		go func() {
@@ -228,9 +228,11 @@ func main() {
 					log.Errorf("watcher: reload config error: %v", err)
 					continue
 				}
-				prommonitor.Resources.Reset()
+				// the counts are of the old watcher up to here, then of the new one
 				_ = w.Stop()
+				prommonitor.Resources.Reset()
 				w = rw
+				_ = w.Start()
 				ser.ResetStore(rs, clis) // reset store
 				prommonitor.ConfigReload.WithLabelValues("success").Inc()
 				log.Infof("auto reloaded config successfully")
-- 
2.43.0


From 69be9ff9a64d89ff3b3ee759f5b58617e551bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:32 +0000
Subject: [PATCH 45/45] fix: take only watch URLs for watches, not any with a
 segment of that name

---
 api/proxy.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 36754f2..9ee6fad 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -409,8 +409,14 @@ func isWatchRequest(r *http.Request) bool {
 			return true
 		}
 	}
-	if strings.Contains(r.URL.Path, "/watch/") {
-		return true
+	// /api/<version>/watch/... and /apis/<group>/<version>/watch/...,
+	// but not what is in a namespace, or has a name, like that.
+	parts := strings.Split(strings.TrimPrefix(r.URL.Path, "/"), "/")
+	switch parts[0] {
+	case "api":
+		return len(parts) > 3 && parts[2] == "watch"
+	case "apis":
+		return len(parts) > 4 && parts[3] == "watch"
 	}
 	return false
 }
-- 
2.43.0

