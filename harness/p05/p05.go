package p05

import (
	"strconv"

	corev1 "k8s.io/api/core/v1"

	"github.com/DaoCloud/ckube/page"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

// window gives the positions of page k of size s of n by their definition.
func window(n, k, s int64) (from, to int64) {
	if k == 0 || s == 0 {
		return 0, n
	}
	for i := int64(0); i < n; i++ {
		p := i/s + 1
		if p < k {
			from = i + 1
		}
		if p <= k {
			to = i + 1
		}
	}
	if to < from {
		to = from
	}
	return from, to
}

// check lists pods and compares with the pods that should be selected.
func check(n int, pick func(i int) bool, label func(i int) string, selector string, pg, ps int64) {
	h.Config("c1", "")
	s := h.Store()
	var want []string
	for i := 0; i < n; i++ {
		p := h.Pod("ns", "p"+strconv.Itoa(i))
		if l := label(i); l != "" {
			p.Labels = map[string]string{"app": l}
		}
		_ = s.OnResourceAdded(h.Pods, "c1", p)
		if pick(i) {
			want = append(want, "c1/ns/p"+strconv.Itoa(i))
		}
	}
	q := page.Paginate{Page: pg, PageSize: ps}
	res, w := h.Call(s, nil, h.PodList("ns", h.ListQuery(q, selector)))
	l := h.AsList(res, w)
	total := int64(len(want))
	if pg < 0 || ps < 0 {
		rt.Assert("negative", !l.OK && l.Code == 400, "a negative page is served")
		return
	}
	from, to := window(total, pg, ps)
	if from == to && total > 0 || from == to && pg > 1 && ps > 0 {
		rt.Cover("beyond")
		rt.Assert("beyond", !l.OK && l.Code == 400, "a page beyond the end is not reported")
		return
	}
	rt.Cover("page")
	rt.Assert("served", l.OK, "a page that exists is not served")
	if !l.OK {
		return
	}
	rt.Assert("items", h.Same(h.Names(l.Items), want[from:to]), "a page holds other resources than those at its positions")
	rt.Assert("remain", l.Remain == total-to, "the remaining item count is not the number of resources behind the page")
	pl := &corev1.PodList{Items: make([]corev1.Pod, len(l.Items))}
	if l.Remain > 0 || rt.Bool("explicit") {
		pl.RemainingItemCount = &l.Remain
	}
	got := page.MakeupResPaginate(pl, q)
	rt.Assert("total", got.Total == total && got.Page == pg && got.PageSize == ps, "the total a client derives from a page is wrong")
}

func numbers() (int64, int64) {
	m := rt.Bound("max_page", 4, 7)
	pg, ps := int64(rt.Choice("page", m+1)-1), int64(rt.Choice("size", m+1)-1)
	return pg, ps
}

// CheckPlain: pages of all resources.
func CheckPlain() {
	n := rt.Choice("n", rt.Bound("resources", 4, 8))
	pg, ps := numbers()
	check(n, func(int) bool { return true }, func(int) string { return "" }, "", pg, ps)
}

// CheckBig: page numbers and sizes near overflow.
func CheckBig() {
	big := []int64{1, 2, 1 << 31, 1 << 32, 1 << 62, 1<<62 + 1, 1<<63 - 1, -1, -1 << 63}
	pg, ps := big[rt.Choice("page", len(big))], big[rt.Choice("size", len(big))]
	sel := ""
	if rt.Bool("selector") {
		sel = "app=a"
	}
	check(3, func(int) bool { return true }, func(int) string { return "a" }, sel, pg, ps)
}

// CheckSelector: pages of what a label selector selects, for any labels.
func CheckSelector() {
	h.FewValues()
	r := h.MkReq([]string{"app"}, 1)
	n := rt.Bound("labelled", 3, 4)
	ls := make([]string, n)
	sel := make([]bool, n)
	for i := range ls {
		m := map[string]string{}
		if i == 0 || rt.Bool("labelled") {
			ls[i] = rt.Str("label", 1, h.Values)
			m["app"] = ls[i]
		}
		sel[i] = r.Holds(m)
	}
	pgs := [][2]int64{{0, 0}, {1, 1}, {2, 1}, {1, 2}, {2, 2}}
	k := rt.Choice("page", len(pgs))
	check(n, func(i int) bool { return sel[i] }, func(i int) string { return ls[i] }, r.Text(), pgs[k][0], pgs[k][1])
}

// CheckTotal: the total a client derives, for any numbers.
func CheckTotal() {
	n := rt.Int64In("n", 0, 100)
	pg, ps := rt.Int64In("page", 1, 50), rt.Int64In("size", 1, 50)
	from := (pg - 1) * ps
	rt.Assume(from < n)
	items := rt.Choice("items", rt.Bound("items", 6, 12))
	rest := n - from
	if rest > ps {
		rt.Assume(int64(items) == ps)
	} else {
		rt.Assume(int64(items) == rest)
	}
	remain := n - from - int64(items)
	pl := &corev1.PodList{Items: make([]corev1.Pod, items)}
	pl.RemainingItemCount = &remain
	got := page.MakeupResPaginate(pl, page.Paginate{Page: pg, PageSize: ps, Total: rt.Int64("before"), Search: "x", Sort: "y"})
	rt.Assert("total", got.Total == n && got.Page == pg && got.PageSize == ps && got.Search == "x" && got.Sort == "y", "the total a client derives from a page is wrong")
	rt.Cover("total")
}
