package p07

import (
	"strconv"
	"strings"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
	corev1 "k8s.io/api/core/v1"
)

type key struct {
	name string
	num  bool
	desc bool
}

func (k key) text() string {
	s := k.name
	if k.num {
		s += "!int"
	} else if rt.Bool("spell-str") {
		s += "!str"
	}
	if k.desc {
		return s + " desc"
	}
	if rt.Bool("spell-asc") {
		return s + " asc"
	}
	return s
}

func value(o interface{}, k string) string {
	p := o.(*corev1.Pod)
	switch k {
	case "name":
		return p.Name
	case "namespace":
		return p.Namespace
	case "cluster":
		return p.Annotations["ckube.doacloud.io/cluster"]
	}
	return p.Labels[k]
}

// before: does a come before b, -1 yes, 0 either, 1 no
func cmp(a, b interface{}, ks []key) int {
	for _, k := range ks {
		x, y := value(a, k.name), value(b, k.name)
		if k.num {
			i, e1 := strconv.ParseFloat(x, 64)
			j, e2 := strconv.ParseFloat(y, 64)
			rt.Assume(e1 == nil && e2 == nil)
			if i == j {
				continue
			}
			if (i < j) != k.desc {
				return -1
			}
			return 1
		}
		if x == y {
			continue
		}
		if (x < y) != k.desc {
			return -1
		}
		return 1
	}
	return 0
}

func check(s store.Store, sortBy string, ks []key, n int) {
	r := s.Query(h.Pods, store.Query{Paginate: page.Paginate{Sort: sortBy}})
	rt.Assert("served", r.Error == nil && len(r.Items) == n, "a query with a legal sort order fails or loses resources")
	rt.Observe("names", h.Names(r.Items))
	seen := map[string]bool{}
	for _, o := range r.Items {
		seen[h.Name(o)] = true
	}
	rt.Assert("all", len(seen) == n, "sorting repeats a resource")
	for i := 0; i+1 < len(r.Items); i++ {
		c := cmp(r.Items[i], r.Items[i+1], ks)
		rt.Assert("ordered", c <= 0, "two resources stand in the wrong order")
		if c < 0 {
			rt.Cover("strict")
		}
	}
}

func keys(n int, num bool) []key {
	var ks []key
	for i := 0; i < n; i++ {
		ks = append(ks, key{name: []string{"k", "j"}[i], num: num && rt.Bool("num"), desc: rt.Bool("desc")})
	}
	if n == 2 && rt.Bool("swap") {
		ks[0], ks[1] = ks[1], ks[0]
	}
	return ks
}

func join(ks []key) string {
	var ts []string
	for _, k := range ks {
		ts = append(ts, k.text())
	}
	return strings.Join(ts, []string{",", ", ", " , "}[rt.Choice("sep", 3)])
}

var spots = [][3]string{{"c2", "n1", "x"}, {"c1", "n2", "x"}, {"c1", "n1", "y"}, {"c1", "n1", "x"}}

// CheckText: one text key, any values.
func CheckText() {
	n := rt.Bound("objects", 3, 4)
	s := h.SortStore()
	for i := 0; i < n; i++ {
		_ = s.OnResourceAdded(h.Pods, spots[i][0], h.Labelled(spots[i][1], spots[i][2], rt.StrUpTo("k", rt.Bound("text_len", 1, 2), rt.Printable), ""))
	}
	ks := keys(1, false)
	check(s, ks[0].text(), ks, n)
}

var odd = []string{"0.5", "-0.5", "1e1", "007", "10", "-10", "+5", "9.99", "100000", "-0"}

// CheckNumber: one numeric key, any numbers of up to two digits and a sign.
func CheckNumber() {
	n := 2 + rt.Bound("more_objects", 1, 2)
	s := h.SortStore()
	for i := 0; i < n; i++ {
		v := ""
		if i == 0 {
			v = odd[rt.Choice("odd", len(odd))]
		} else {
			v = rt.Str("digit", 1, rt.Digits) + rt.Str("digits", rt.Choice("more", 2), rt.Digits)
			if i == 1 && rt.Bool("negative") {
				v = "-" + v
			}
		}
		_ = s.OnResourceAdded(h.Pods, spots[i][0], h.Labelled(spots[i][1], spots[i][2], v, ""))
	}
	ks := []key{{name: "k", num: true, desc: rt.Bool("desc")}}
	check(s, ks[0].text(), ks, n)
}

// CheckTwo: two keys with any direction and type, in any notation.
func CheckTwo() {
	s := h.SortStore()
	for i := 0; i < 3; i++ {
		_ = s.OnResourceAdded(h.Pods, spots[i][0], h.Labelled(spots[i][1], spots[i][2], rt.Str("k", 1, "12"), rt.Str("j", 1, "12")))
	}
	ks := keys(2, true)
	check(s, join(ks), ks, 3)
}

// CheckDefault: without a sort order resources stand by cluster, namespace, name.
func CheckDefault() {
	s := h.SortStore()
	n := rt.Bound("objects", 3, 4)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		c, ns, name := rt.Str("cluster", 1, "ab"), rt.Str("namespace", 1, "ab"), rt.Str("name", 1, "ab")
		_ = s.OnResourceAdded(h.Pods, c, h.Labelled(ns, name, "", ""))
		seen[c+ns+name] = true
	}
	ks := []key{{name: "cluster"}, {name: "namespace"}, {name: "name"}}
	check(s, []string{"", " ", ",", "cluster"}[rt.Choice("none", 4)], ks, len(seen))
}

// CheckIllegal: an illegal sort order is an error and serves nothing.
func CheckIllegal() {
	s := h.SortStore()
	_ = s.OnResourceAdded(h.Pods, "c1", h.Labelled("n", "a", "1", "x"))
	_ = s.OnResourceAdded(h.Pods, "c1", h.Labelled("n", "b", "2", rt.StrUpTo("j", 2, rt.Lower)))
	w := rt.Str("word", 1, rt.Lower)
	bad := []string{"nosuch", "k up", "k " + w, "k desc " + w, "k  " + w + "x", "k!float", "k!int!int", "k!", "k!" + w, "k, nosuch", "nosuch, k", "k  desc  asc", "desc", "k desc, name down"}
	r := s.Query(h.Pods, store.Query{Paginate: page.Paginate{Sort: bad[rt.Choice("bad", len(bad))]}})
	rt.Assert("illegal", r.Error != nil && len(r.Items) == 0, "an illegal sort order is not rejected")
}

// CheckNotNumbers: numeric order over values that are no numbers is an error.
func CheckNotNumbers() {
	s := h.SortStore()
	v := rt.StrUpTo("k", rt.Bound("junk_len", 1, 2), rt.Lower+"-. ")
	rt.Assume(v != "inf" && v != "nan")
	_ = s.OnResourceAdded(h.Pods, "c1", h.Labelled("n", "a", "1", ""))
	_ = s.OnResourceAdded(h.Pods, "c1", h.Labelled("n", "b", v, ""))
	r := s.Query(h.Pods, store.Query{Paginate: page.Paginate{Sort: "k!int"}})
	rt.Assert("nonumbers", r.Error != nil && len(r.Items) == 0, "numeric order over text is not rejected")
}

var stems = []string{"900719925474099", "1677721", "-1677721", "0.00000000", "1000000.000000", "123e-3"}

// CheckPrecision: numbers that differ late are told apart, numbers that only look
// different are not.
func CheckPrecision() {
	s := h.SortStore()
	st := stems[rt.Choice("stem", len(stems))]
	_ = s.OnResourceAdded(h.Pods, "c1", h.Labelled("n", "a", st+rt.Str("last", 1, rt.Digits), ""))
	_ = s.OnResourceAdded(h.Pods, "c1", h.Labelled("n", "b", st+rt.Str("last", 1, rt.Digits), ""))
	ks := []key{{name: "k", num: true, desc: rt.Bool("desc")}}
	check(s, ks[0].text(), append(ks, key{name: "name"}), 2)
}

// CheckMany: more resources than sorting treats as few.
func CheckMany() {
	n := []int{13, 40, 200}[rt.Choice("n", rt.Bound("many", 2, 3))]
	s := h.SortStore()
	num := rt.Bool("num")
	odd := rt.Str("odd", 1, "0123456789")
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i * 7919 % 31)
		j := strconv.Itoa(i * 104729 % 5)
		if i == n/2 {
			k += odd
		}
		if !num {
			k = h.Filler(70) + k
		}
		_ = s.OnResourceAdded(h.Pods, []string{"c1", "c2"}[i%2], h.Labelled("n", "p"+strconv.Itoa(i*31%n)+"x"+strconv.Itoa(i), k, j))
	}
	ks := []key{{name: "k", num: num, desc: rt.Bool("desc")}}
	if rt.Bool("two") {
		ks = append([]key{{name: "j", num: true, desc: rt.Bool("desc2")}}, ks...)
	}
	check(s, join(ks), ks, n)
}
