package p14

import (
	"net/url"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

var numbers = []int64{0, 1, 2, 10, 99, 1 << 31, 1<<53 + 1, 1<<63 - 1, -1, -1 << 63}

// CheckText: any search text reaches the store as given.
func CheckText() {
	p := page.Paginate{Search: rt.StrUpTo("search", rt.Bound("search_len", 2, 3), rt.ASCII)}
	send(p, "", "c1")
}

func CheckSort() {
	p := page.Paginate{Page: 1, PageSize: 2, Sort: rt.StrUpTo("sort", rt.Bound("sort_len", 2, 3), rt.ASCII)}
	send(p, "", "c1")
}

// CheckWide: text outside ASCII and characters special to JSON, HTML and base64.
func CheckWide() {
	special := []string{"?", "~", "\x7f", "<>&", "\u2028\u2029", "中文", "é", "😀", "\u00ff", "\"", "\\", "\n", "\t", "\x00", ";;", "!=", "\uffff", "¾", "￾"}
	n := len(special)
	pick := func() string { return special[rt.Choice("special", n)] }
	p := page.Paginate{Search: "ab"[:rt.Choice("lead", 3)] + pick() + rt.Str("mid", 1, rt.Printable) + pick(), Sort: "name"}
	send(p, "", "c1")
}

// CheckLong: queries that need several label values.
func CheckLong() {
	n := rt.Choice("len", rt.Bound("long_step", 12, 60)) * 9
	p := page.Paginate{Page: 3, PageSize: 7, Search: "name=" + rt.Str("search", n, rt.LowerNum), Sort: "name desc"}
	send(p, "", "c1")
}

// CheckNumbers: any page and page size.
func CheckNumbers() {
	pg, ps := numbers[rt.Choice("page", len(numbers))], numbers[rt.Choice("size", len(numbers))]
	n := int64(rt.Bound("number", 12, 30))
	switch rt.Choice("any", 3) {
	case 1:
		pg = rt.Int64In("anypage", -n, n)
	case 2:
		ps = rt.Int64In("anysize", -n, n)
	}
	send(page.Paginate{Page: pg, PageSize: ps}, "", "c1")
}

// CheckClusters: the clusters of a query are the ones that were set.
func CheckClusters() {
	var cs []string
	n := 1 + rt.Choice("more", 2)
	for i := 0; i < n; i++ {
		cs = append(cs, h.Word("cluster", 1+rt.Choice("clen", rt.Bound("cluster_len", 2, 3))))
	}
	send(page.Paginate{Search: "name=x"}, "", cs...)
}

// CheckSelector: the label selector of the user goes through next to the page.
func CheckSelector() {
	r := h.MkReq([]string{"app", "tier"}, rt.Bound("value_len", 1, 2))
	t := r.Text()
	rs := []h.Req{r}
	if rt.Bool("two") {
		r2 := h.MkReq([]string{"app", "tier"}, 1)
		rs = append(rs, r2)
		t += "," + r2.Text()
	}
	send2(page.Paginate{Search: "name=x"}, t, rs, "c1")
}

func send(p page.Paginate, selector string, clusters ...string) { send2(p, selector, nil, clusters...) }

func send2(p page.Paginate, selector string, rs []h.Req, clusters ...string) {
	h.Config("dft", "")
	clustered := p
	if err := clustered.Clusters(clusters); err != nil {
		// the search is no search
		_, merr := (&page.Paginate{Search: p.Search}).Match(map[string]string{"name": "x"})
		rt.Assert("nocluster", merr != nil, "clusters can not be set on a good search")
		rt.Cover("nocluster")
		return
	}
	o, err := page.QueryListOptions(v1.ListOptions{LabelSelector: selector, Limit: 5}, clustered)
	rt.Assert("encodes", err == nil, "a page query can not be put into list options")
	if err != nil {
		return
	}
	pod := h.Pod("ns", "x")
	pod.Labels = map[string]string{"app": h.Word("app", 1)}
	s := &h.Recorder{Cached: true, Result: store.QueryResult{Items: []interface{}{pod}, Total: 1}}
	res, w := h.Call(s, nil, h.PodList("ns", "labelSelector="+url.QueryEscape(o.LabelSelector)))
	rt.Assert("queried", len(s.Queries) == 1, "a page query does not reach the cache")
	if len(s.Queries) != 1 {
		return
	}
	q := s.Queries[0]
	rt.Observe("search", q.Search)
	same := q.Sort == p.Sort && q.Search == clustered.Search && q.Namespace == "ns" && o.Limit == 5
	if len(rs) == 0 {
		same = same && q.Page == p.Page && q.PageSize == p.PageSize
	}
	rt.Assert("same", same, "the page query that arrives is not the one that was sent")
	got := q.GetClusters()
	for _, c := range clusters {
		in := false
		for _, g := range got {
			in = in || g == c
		}
		rt.Assert("clusters", in, "a cluster of the query is lost")
	}
	for _, g := range got {
		in := false
		for _, c := range clusters {
			in = in || g == c
		}
		rt.Assert("noclusters", in, "a cluster appears that was not asked for")
	}
	if rs != nil {
		want := true
		for _, r := range rs {
			want = want && r.Holds(pod.Labels)
		}
		m, ok := res.(map[string]interface{})
		rt.Assert("listed", ok && w.Status == 0, "a list with a label selector fails")
		if ok {
			rt.Assert("selected", (len(m["items"].([]interface{})) == 1) == want, "a page query changes the label selector next to it")
		}
	}
}
