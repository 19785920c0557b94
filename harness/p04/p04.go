package p04

import (
	"strconv"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

var all = []string{"c/n/p0", "c/n/p1", "c/n/p2", "c/n/p3", "c/n/p4", "c/n/p5"}

var extremes = []int64{0, 1, 2, 3, 4, 5, 7, 100, -1, 1 << 31, 1 << 32, 1 << 61, 1 << 62, 1<<63 - 1, -1 << 63}

// CheckAnyPage: any 64 bit page number against chosen page sizes.
func CheckAnyPage() {
	ps := extremes[rt.Choice("size", len(extremes))]
	check(rt.Bound("objects", 4, 6), rt.Int64("page"), ps)
}

// CheckAnySize: any 64 bit page size against chosen page numbers.
func CheckAnySize() {
	pg := extremes[rt.Choice("number", len(extremes))]
	check(rt.Bound("objects", 4, 6), pg, rt.Int64("pagesize"))
}

// CheckBoth: page number and size together.
func CheckBoth() {
	r := int64(rt.Bound("both_range", 40, 1000))
	check(rt.Bound("objects_both", 4, 5), rt.Int64In("page", -r, r), rt.Int64In("pagesize", -r, r))
}

// CheckMany: pages of more resources than fit on one screen.
func CheckMany() {
	n := rt.Bound("many", 600, 1200)
	s := h.Store()
	var want []string
	for i := 0; i < n; i++ {
		name := "p" + strconv.Itoa(10000+i)
		want = append(want, "c/n/"+name)
		_ = s.OnResourceAdded(h.Pods, "c", h.Pod("n", name))
	}
	var sizes = []int64{0, 1, 99, 100, 101, 150, 256, 299, 300, 301, 500, 501, 1000, 1001, 1 << 40}
	ps := sizes[rt.Choice("size", len(sizes))]
	pg := []int64{0, 1, 2, 3}[rt.Choice("number", 4)]
	r := s.Query(h.Pods, store.Query{Paginate: page.Paginate{Page: pg, PageSize: ps}})
	lo, hi := int64(0), int64(n)
	if pg > 0 && ps > 0 {
		lo = (pg - 1) * ps
		if lo > hi {
			lo = hi
		}
		if hi-lo > ps {
			hi = lo + ps
		}
	}
	rt.Assert("many", r.Error == nil && r.Total == int64(n) && h.Same(h.Names(r.Items), want[lo:hi]), "a page of many resources does not hold the ones at its positions")
}

func check(max int, pg, ps int64) {
	s := h.Store()
	n := rt.Choice("objects", max+1)
	for i := 0; i < n; i++ {
		_ = s.OnResourceAdded(h.Pods, "c", h.Pod("n", all[i][4:]))
	}
	var res store.QueryResult
	panicked := rt.Catch(func() {
		res = s.Query(h.Pods, store.Query{Paginate: page.Paginate{Page: pg, PageSize: ps}})
	})
	rt.Assert("nopanic", panicked == "", "a page request makes the store panic")
	if n == 0 {
		rt.Assert("empty", len(res.Items) == 0 && res.Total == 0, "items out of nothing")
		return
	}
	if pg < 0 || ps < 0 {
		rt.Cover("negative")
		rt.Assert("negative", res.Error != nil && len(res.Items) == 0, "a negative page or page size is not rejected")
		return
	}
	rt.Assert("accepted", res.Error == nil, "a legal page request fails")
	rt.Assert("total", res.Total == int64(n), "the total of a paged query is not the number of matching resources")
	lo, hi := 0, n
	if pg != 0 && ps != 0 {
		lo = n
		// page k of size ps covers [ (k-1)*ps, k*ps ), reached by counting
		if ps >= int64(n) {
			if pg == 1 {
				lo = 0
			}
		} else if pg <= int64(n) {
			if o := (pg - 1) * ps; o < int64(n) {
				lo = int(o)
			}
		}
		if int64(n-lo) > ps {
			hi = lo + int(ps)
		}
	} else {
		rt.Cover("unpaged")
	}
	rt.Observe("names", h.Names(res.Items))
	rt.Assert("window", h.Same(h.Names(res.Items), all[lo:hi]), "a page does not hold the resources at its positions")
	if lo < hi && hi < n && lo > 0 {
		rt.Cover("middle")
	}
}
