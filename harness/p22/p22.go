package p22

import (
	"encoding/json"
	"io"
	"strconv"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/watcher"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

// value is any JSON value, as text and as what Unmarshal makes of it.
func value(depth int) string {
	n := 6
	if depth > 0 {
		n = 8
	}
	switch rt.Choice("kind", n) {
	case 0:
		return "null"
	case 1:
		return "true"
	case 2:
		b, _ := json.Marshal(rt.StrUpTo("text", rt.Bound("text_len", 1, 2), rt.Printable))
		return string(b)
	case 3:
		return []string{"", "-", "900719925474099", "-900719925474099", "922337203685477580", "1844674407370955161"}[rt.Choice("stem", 6)] + rt.Str("digit", 1, "1234567")
	case 4:
		return []string{"0.5", "-1e3", "1.25e-7"}[rt.Choice("float", 3)]
	case 5:
		return []string{"{}", "[]"}[rt.Choice("empty", 2)]
	case 6:
		return "[" + value(depth-1) + "," + value(depth-1) + "]"
	}
	k, _ := json.Marshal(rt.Str("key", 1, "aA"))
	return "{" + string(k) + ":" + value(depth-1) + "}"
}

// sameNumber compares integers exactly, other numbers as floating point.
func sameNumber(a, b json.Number) bool {
	i, e1 := strconv.ParseInt(a.String(), 10, 64)
	j, e2 := strconv.ParseInt(b.String(), 10, 64)
	if e1 == nil && e2 == nil {
		return i == j
	}
	f, _ := a.Float64()
	g, _ := b.Float64()
	return f == g
}

// equal compares JSON values; integers count exactly.
func equal(a, b interface{}) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !equal(v, w) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case json.Number:
		y, ok := b.(json.Number)
		return ok && sameNumber(x, y)
	}
	return a == b
}

func parse(s string) (map[string]interface{}, bool) {
	var m map[string]interface{}
	d := json.NewDecoder(&reader{s})
	d.UseNumber()
	err := d.Decode(&m)
	return m, err == nil
}

// unique tells whether every name of the outermost object is there once.
func unique(s string) bool {
	seen := map[string]bool{}
	depth, from := 0, -1
	name := ""
	for i := 0; i < len(s); i++ {
		if from >= 0 {
			switch s[i] {
			case '\\':
				i++
			case '"':
				name, from = s[from:i], -1
			}
			continue
		}
		switch s[i] {
		case '"':
			from = i + 1
		case '{', '[':
			depth++
		case '}', ']':
			depth--
		case ':':
			if depth == 1 {
				if seen[name] {
					return false
				}
				seen[name] = true
			}
		}
	}
	return true
}

type reader struct{ s string }

func (r *reader) Read(b []byte) (int, error) {
	if r.s == "" {
		return 0, io.EOF
	}
	n := copy(b, r.s)
	r.s = r.s[n:]
	return n, nil
}

// CheckRoundTrip: an object of a kind without a Go type is answered as it was reported.
func CheckRoundTrip() {
	field := []string{"spec", "data", "Spec", "kinds", "status"}[rt.Choice("field", 5)]
	v := value(rt.Bound("depth", 1, 2))
	text := `{"apiVersion":"g/v1","kind":"Foo","metadata":{"name":"a","namespace":"n","labels":{"l":"x"}},"` + field + `":` + v
	if rt.Bool("second") {
		text += `,"type":"` + rt.Str("type", 1, rt.LowerNum) + `"`
	}
	text += "}"
	rt.Observe("text", text)
	o := &watcher.ObjType{}
	rt.Assert("reads", json.Unmarshal([]byte(text), o) == nil, "a legal object is not read")
	rt.Assert("meta", o.APIVersion == "g/v1" && o.Kind == "Foo" && o.Name == "a" && o.Namespace == "n" && o.Labels["l"] == "x", "kind and metadata are not read")
	b, err := json.Marshal(o)
	rt.Assert("writes", err == nil, "a cached object can not be written")
	rt.Observe("written", string(b))
	m, ok := parse(string(b))
	want, ok2 := parse(text)
	rt.Assume(ok2)
	if md, isMap := m["metadata"].(map[string]interface{}); isMap {
		if md["creationTimestamp"] == nil {
			delete(md, "creationTimestamp")
		}
	}
	rt.Assert("unique", unique(string(b)), "an object is answered with one field twice")
	rt.Assert("same", ok && equal(m, want), "an object is not answered as it was reported")
}

// CheckCopy: a copy is equal and does not change with the original.
func CheckCopy() {
	o := &watcher.ObjType{TypeMeta: metav1.TypeMeta{Kind: "Foo", APIVersion: "v1"}, ObjectMeta: metav1.ObjectMeta{Name: "a", Annotations: map[string]string{"x": "1"}},
		Data: map[string]interface{}{"spec": map[string]interface{}{"f": rt.Str("f", 1, rt.Lower)}, "l": []interface{}{"a"}, "s": "t"}}
	before, _ := json.Marshal(o)
	c, ok := o.DeepCopyObject().(*watcher.ObjType)
	rt.Assert("type", ok, "a copy is of another type")
	switch rt.Choice("change", 5) {
	case 0:
		o.Data["s"] = "u"
	case 1:
		o.Name = "b"
	case 2:
		o.Annotations["x"] = "2"
	case 3:
		o.Data["spec"].(map[string]interface{})["f"] = "changed"
	case 4:
		o.Data["l"].([]interface{})[0] = "b"
	}
	after, _ := json.Marshal(c)
	rt.Assert("independent", string(before) == string(after), "a copy changes with the original")
}

// CheckMalformed: whatever JSON comes in, reading it does not panic.
func CheckMalformed() {
	k := []string{"apiVersion", "kind", "metadata", "spec"}[rt.Choice("key", 4)]
	o := &watcher.ObjType{}
	text := []string{`{"` + k + `":` + value(1) + `}`, value(0)}[rt.Choice("shape", 2)]
	rt.Observe("text", text)
	msg := rt.Catch(func() { _ = json.Unmarshal([]byte(text), o) })
	rt.Assert("nopanic", msg == "", "reading an object panics")
	if _, err := json.Marshal(o); err != nil {
		rt.Assert("writes", false, "a cached object can not be written")
	}
}

// metaFields are the fields of an object's metadata, in every kind of value.
func metaField(i int) (string, string) {
	text := rt.Str("text", 1, rt.Printable)
	b, _ := json.Marshal(text)
	t := string(b)
	d := rt.Str("digit", 1, "123456")
	switch i {
	case 0:
		return "name", t
	case 1:
		return "generateName", t
	case 2:
		return "namespace", t
	case 3:
		return "selfLink", t
	case 4:
		return "uid", t
	case 5:
		return "resourceVersion", t
	case 6:
		return "generation", []string{"", "-", "900719925474099", "922337203685477580"}[rt.Choice("stem", 4)] + d
	case 7:
		return "creationTimestamp", `"202` + d + `-02-1` + d + `T0` + d + `:04:05Z"`
	case 8:
		return "deletionTimestamp", `"202` + d + `-12-31T23:59:5` + d + `Z"`
	case 9:
		return "deletionGracePeriodSeconds", []string{"", "-", "900719925474099"}[rt.Choice("stem", 3)] + d
	case 10:
		return "labels", []string{`{"a/` + d + `":` + t + `,"b":""}`, `{"":` + t + `}`}[rt.Choice("map", 2)]
	case 11:
		return "annotations", []string{`{"a/` + d + `":` + t + `,"b":""}`, `{"kubectl.kubernetes.io/last-applied-configuration":` + t + `}`}[rt.Choice("map", 2)]
	case 12:
		return "ownerReferences", `[{"apiVersion":"v1","kind":` + t + `,"name":"x","uid":"u` + d + `"` + []string{"", `,"controller":true`, `,"controller":false,"blockOwnerDeletion":true`}[rt.Choice("controller", 3)] + `},{"apiVersion":"v2","kind":"L","name":"y","uid":""}]`
	case 13:
		return "finalizers", `[` + t + `,"` + d + `"]`
	}
	return "managedFields", `[{"manager":` + t + `,"operation":"Update","apiVersion":"v1","time":"2020-01-0` + d + `T01:02:03Z","fieldsType":"FieldsV1","fieldsV1":{"f:metadata":{"f:a":{}}}},{"manager":"m"}]`
}

const metaFields = 15

// CheckMeta: every field of the metadata is answered as it was reported.
func CheckMeta() {
	i := rt.Choice("field", metaFields)
	k, v := metaField(i)
	text := `{"metadata":{"` + k + `":` + v
	if rt.Bool("more") {
		k, v := metaField((i + 1 + rt.Choice("second", rt.Bound("second_fields", 2, metaFields-1))) % metaFields)
		text += `,"` + k + `":` + v
	}
	text += `},"apiVersion":"g/v1","kind":"Foo"` + []string{`}`, `,"spec":{}}`, `,"a":null}`}[rt.Choice("data", 3)]
	rt.Observe("text", text)
	o := &watcher.ObjType{}
	rt.Assert("reads", json.Unmarshal([]byte(text), o) == nil, "a legal object is not read")
	var x interface{} = o
	if rt.Bool("copy") {
		x = o.DeepCopyObject()
	}
	b, err := json.Marshal(x)
	rt.Assert("writes", err == nil, "a cached object can not be written")
	rt.Observe("written", string(b))
	m, ok := parse(string(b))
	want, ok2 := parse(text)
	rt.Assume(ok2)
	if md, isMap := m["metadata"].(map[string]interface{}); isMap && md["creationTimestamp"] == nil {
		delete(md, "creationTimestamp")
	}
	rt.Assert("unique", unique(string(b)), "an object is answered with one field twice")
	rt.Assert("meta", ok && equal(m, want), "the metadata of an object is not answered as it was reported")
}

// CheckLarge: long texts, deep nesting, many fields.
func CheckLarge() {
	v := h.Long("text", h.Size("size", 12), rt.LowerNum+" ~")
	v = `"` + v + `"`
	n := []int{3, 12, 40}[rt.Choice("n", rt.Bound("many", 2, 3))]
	switch rt.Choice("shape", 5) {
	case 0:
		for i := 0; i < n; i++ {
			v = `{"a":` + v + `}`
		}
	case 1:
		for i := 0; i < n; i++ {
			v = `[` + v + `,1]`
		}
	case 2:
		t := "{"
		for i := 0; i < n; i++ {
			t += `"k` + strconv.Itoa(i) + `":` + strconv.Itoa(i) + `,`
		}
		v = t + `"z":` + v + `}`
	case 3:
		t := "["
		for i := 0; i < n; i++ {
			t += `{"name":"c` + strconv.Itoa(i) + `"},`
		}
		v = t + v + `]`
	}
	text := `{"apiVersion":"g/v1","kind":"Foo","metadata":{"name":"a","annotations":{"l":` + `"` + h.Filler(300) + `"` + `}},"spec":` + v
	for i := 0; i < n; i++ {
		text += `,"f` + strconv.Itoa(i) + `":true`
	}
	text += "}"
	o := &watcher.ObjType{}
	rt.Assert("reads", json.Unmarshal([]byte(text), o) == nil, "a legal object is not read")
	var x interface{} = o
	if rt.Bool("copy") {
		x = o.DeepCopyObject()
	}
	b, err := json.Marshal(x)
	rt.Assert("writes", err == nil, "a cached object can not be written")
	m, ok := parse(string(b))
	want, ok2 := parse(text)
	rt.Assume(ok2)
	if md, isMap := m["metadata"].(map[string]interface{}); isMap && md["creationTimestamp"] == nil {
		delete(md, "creationTimestamp")
	}
	rt.Assert("large", ok && unique(string(b)) && equal(m, want), "a large object is not answered as it was reported")
}
