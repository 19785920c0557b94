package p18

import (
	"strconv"
	"strings"

	"github.com/DaoCloud/ckube/page"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

const as = "__ckube_as__:"

// resource is the index of any resource.
func resource() map[string]string {
	h.FewValues()
	m := map[string]string{}
	for _, k := range []string{"cluster", "namespace", "name"} {
		m[k] = h.Word(k, 1)
	}
	return m
}

var maxNames = 2

func names() []string {
	var r []string
	n := 1 + rt.Choice("names", maxNames)
	for i := 0; i < n; i++ {
		r = append(r, h.Word("restrict", 1))
	}
	return r
}

func in(x string, l []string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func match(p *page.Paginate, m map[string]string) bool {
	got, err := p.Match(m)
	rt.Assert("valid", err == nil, "restricting a good search makes it invalid")
	return got
}

// restrict applies the restriction and gives the key it is about.
func restrict(p *page.Paginate, ns []string) (string, error) {
	if rt.Bool("bycluster") {
		return "cluster", p.Clusters(ns)
	}
	return "namespace", p.Namespaces(ns)
}

// CheckOneSelector: any one or two requirements in one advanced part.
func CheckOneSelector() {
	m := resource()
	keys := []string{"cluster", "namespace", "name"}
	rs := []h.Req{h.MkReq(keys, 1)}
	t := as + rs[0].Text()
	check(&page.Paginate{Search: t}, m, rs, "")
}

// CheckTwoSelectors: two requirements in one advanced part or in two.
func CheckTwoSelectors() {
	m := resource()
	h.MaxVals = rt.Bound("values_per_requirement", 1, 2)
	maxNames = 1
	keys := []string{"cluster", "namespace", "name"}
	rs := []h.Req{h.MkReq(keys, 1), h.MkReq(keys, 1)}
	t := as + rs[0].Text() + []string{",", ";" + as, "; " + as}[rt.Choice("join", 3)] + rs[1].Text()
	check(&page.Paginate{Search: t}, m, rs, "")
}

// CheckPlain: plain conditions next to an advanced part survive.
func CheckPlain() {
	m := resource()
	lit := rt.Str("lit", 1, h.Values+";=!")
	if lit == ";" {
		lit = ";;"
	}
	r := h.MkReq([]string{"cluster", "namespace", "name"}, 1)
	parts := []string{"name=" + lit, as + r.Text()}
	if rt.Bool("swap") {
		parts[0], parts[1] = parts[1], parts[0]
	}
	p := &page.Paginate{Search: strings.Join(parts, []string{";", "; ", " ;"}[rt.Choice("sep", 3)])}
	check(p, m, []h.Req{r}, "name="+lit)
}

// CheckTwice: the last restriction counts, and the two kinds do not touch each other.
func CheckTwice() {
	m := resource()
	p := &page.Paginate{Search: "name=" + m["name"]}
	want := true
	last := map[string][]string{}
	for i := 0; i < 3; i++ {
		ns := []string{h.Word("restrict", 1)}
		if i == 1 {
			ns = names()
		}
		k, err := restrict(p, ns)
		rt.Assert("sets", err == nil, "a legal restriction is rejected")
		last[k] = ns
	}
	for k, ns := range last {
		want = want && in(m[k], ns)
	}
	rt.Assert("last", match(p, m) == want, "a query is not restricted to what was set last")
}

func check(p *page.Paginate, m map[string]string, rs []h.Req, plain string) {
	other := true
	if plain != "" {
		ok, err := (&page.Paginate{Search: plain}).Match(m)
		rt.Assume(err == nil)
		other = ok
	}
	ns := names()
	key, err := restrict(p, ns)
	rt.Assert("sets", err == nil, "a legal restriction is rejected")
	if err != nil {
		return
	}
	want := in(m[key], ns) && other
	for _, r := range rs {
		if r.Key != key {
			want = want && r.Holds(m)
		}
	}
	rt.Observe("search", p.Search)
	rt.Assert("restricted", match(p, m) == want, "a restricted query selects other resources than the restriction and the remaining conditions say")
	if want {
		rt.Cover("hit")
	}
	if key == "cluster" {
		got := p.GetClusters()
		ok := len(got) > 0
		for _, g := range got {
			ok = ok && in(g, ns)
		}
		for _, n := range ns {
			ok = ok && in(n, got)
		}
		rt.Assert("reported", ok, "the clusters of a query are not reported as set")
	}
}

// CheckOtherKeys: requirements on keys that only resemble the restricted one stay.
func CheckOtherKeys() {
	m := resource()
	keys := []string{"cluster-role", "clusters", "a.cluster", "namespace.name", "mynamespace", "is_deleted", "Cluster", "n"}
	k := keys[rt.Choice("other", len(keys))]
	m[k] = h.Word("othervalue", 1)
	r := h.MkReq([]string{k}, 1)
	check(&page.Paginate{Search: as + r.Text()}, m, []h.Req{r}, "")
}

// CheckLarge: restricting to many names, long ones, next to many conditions.
func CheckLarge() {
	n := []int{3, 9, 17, 40}[rt.Choice("names", rt.Bound("many", 3, 4))]
	l := []int{4, 30, 61}[rt.Choice("length", 3)]
	var ns []string
	for i := 0; i < n; i++ {
		ns = append(ns, h.Filler(l)+strconv.Itoa(10+i))
	}
	at := []int{0, n / 2, n - 1}[rt.Choice("at", 3)]
	ns[at] = h.Long("name", l, rt.LowerNum)
	m := map[string]string{"cluster": h.Filler(l) + "10", "namespace": h.Filler(l) + "10"}
	for i := 0; i < n; i++ {
		m["k"+strconv.Itoa(i)] = h.Filler(l)
	}
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, []string{"k", as + "k"}[i%2]+strconv.Itoa(i)+"="+h.Filler(l))
	}
	v := h.Long("value", l, rt.LowerNum)
	m["k"+strconv.Itoa(at)] = v
	v2 := h.Long("has", l, rt.LowerNum)
	p := &page.Paginate{Search: strings.Join(parts, ";")}
	k, err := restrict(p, ns)
	rt.Assert("set", err == nil, "a query can not be restricted to many names")
	m[k] = v2
	rt.Assert("large", match(p, m) == (in(v2, ns) && v == h.Filler(l)), "restricting to many names changes what a query selects")
	if rt.Bool("again") {
		_, err = []func([]string) error{p.Clusters, p.Namespaces}[map[string]int{"cluster": 0, "namespace": 1}[k]]([]string{v2}), error(nil)
		rt.Assert("again", err == nil && match(p, m) == (v == h.Filler(l)), "a second restriction does not replace the first")
	}
}
