package p02

import (
	"strconv"
	"strings"

	"github.com/DaoCloud/ckube/page"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

// contains is the documented containment: the value as stored, where a
// double quote in the condition anchors to the start or end of the value.
func contains(v, want string) bool {
	q := "\"" + v + "\""
	for i := 0; i+len(want) <= len(q); i++ {
		if q[i:i+len(want)] == want {
			return true
		}
	}
	return false
}

type verdict struct {
	ok  bool
	err bool
}

func refOne(keys, vals []string, cond string) verdict {
	cond = strings.TrimSpace(cond)
	if cond == "" {
		return verdict{ok: true}
	}
	eq := -1
	for i := 0; i < len(cond); i++ {
		if cond[i] == '=' {
			eq = i
			break
		}
	}
	neg := func(s string) (string, bool) {
		if len(s) > 0 && s[0] == '!' {
			return s[1:], true
		}
		return s, false
	}
	if eq > 0 {
		want, no := neg(cond[eq+1:])
		for i, k := range keys {
			if k == cond[:eq] {
				return verdict{ok: contains(vals[i], want) != no}
			}
		}
		return verdict{err: true}
	}
	want, no := neg(cond)
	hit := false
	for _, v := range vals {
		if contains(v, want) {
			hit = true
		}
	}
	return verdict{ok: hit != no}
}

func index(n, l int, alpha string) (keys, vals []string, m map[string]string) {
	all := []string{"name", "uid", "labels"}
	m = map[string]string{}
	for i := 0; i < n; i++ {
		v := rt.StrUpTo("value", l, alpha)
		keys = append(keys, all[i])
		vals = append(vals, v)
		m[all[i]] = v
	}
	return
}

func check(id string, keys, vals []string, m map[string]string, conds []string) {
	want := verdict{ok: true}
	for _, c := range conds {
		v := refOne(keys, vals, c)
		if v.err {
			want = verdict{err: true}
			break
		}
		want.ok = want.ok && v.ok
	}
	got, err := page.Match(m, conds)
	rt.Observe("match", got)
	rt.Observe("error", err != nil)
	rt.Assert(id+"-error", (err != nil) == want.err, "a search is rejected exactly when it names an index that does not exist")
	rt.Assert(id, want.err || got == want.ok, "a search condition does not select what it documents")
	if got {
		rt.Cover(id + "-hit")
	} else {
		rt.Cover(id + "-miss")
	}
}

// CheckFuzzy: a bare text matches iff some index value contains it.
func CheckFuzzy() {
	rt.MapOrder(true)
	keys, vals, m := index(rt.Choice("keys", rt.Bound("index_keys", 2, 3)+1), rt.Bound("fuzzy_value_len", 3, 3), rt.AllBytes)
	c := rt.StrUpTo("search", rt.Bound("fuzzy_search_len", 3, 4), rt.ASCII)
	rt.Assume(!strings.Contains(c, "="))
	check("fuzzy", keys, vals, m, []string{c})
}

// CheckKeyValue: key=value, key=!value and key="value".
func CheckKeyValue() {
	keys, vals, m := index(2, rt.Bound("kv_value_len", 4, 5), rt.ASCII)
	k := []string{"name", "uid", "nam", "name ", "Name"}[rt.Choice("key", 5)]
	c := k + "=" + rt.StrUpTo("search", rt.Bound("kv_search_len", 4, 5), rt.ASCII)
	check("keyvalue", keys, vals[:], m, []string{c})
}

// CheckKey: the key of a condition selects exactly the index of that name.
func CheckKey() {
	n := rt.Bound("key_len", 3, 4)
	k1 := rt.StrUpTo("index1", n, rt.LowerNum+"-_.")
	k2 := rt.StrUpTo("index2", n, rt.LowerNum+"-_.")
	rt.Assume(k1 != k2 && k1 != "")
	v1, v2 := rt.Str("value1", 1, rt.Printable), rt.Str("value2", 1, rt.Printable)
	keys, vals := []string{k1}, []string{v1}
	m := map[string]string{k1: v1}
	if k2 != "" {
		keys, vals = append(keys, k2), append(vals, v2)
		m[k2] = v2
	}
	key := rt.StrUpTo("key", n, rt.LowerNum+"-_.")
	rt.Assume(key != "")
	check("key", keys, vals, m, []string{key + "=" + rt.StrUpTo("search", 1, rt.Printable)})
}

// CheckConjunction: several conditions all have to hold.
func CheckConjunction() {
	keys, vals, m := index(2, 1, "a!\"~ ")
	var conds []string
	n := rt.Choice("conds", 3) + 1
	for i := 0; i < n; i++ {
		pre := []string{"", "name=", "uid=", "zz="}[rt.Choice("shape", 4)]
		var s string
		if n == 3 {
			s = rt.Str("search", 1, "a!~ ")
		} else {
			s = rt.StrUpTo("search", 2, "a!\"~ ")
		}
		conds = append(conds, pre+s)
	}
	check("conjunction", keys, vals, m, conds)
}

// CheckLarge: long values and texts, many keys and many conditions.
func CheckLarge() {
	n, l := 2, 6
	if rt.Bool("many") {
		n = []int{3, 9, 17, 33, 70}[rt.Choice("n", rt.Bound("many", 4, 5))]
	} else {
		l = h.Size("size", 13)
	}
	at := []int{0, n / 2, n - 1}[rt.Choice("key", 3)]
	var keys, vals, conds []string
	m := map[string]string{}
	v := h.Long("value", l, rt.LowerNum)
	for i := 0; i < n; i++ {
		k, x := "k"+strconv.Itoa(i), "same"
		if i == at {
			x = v
		}
		keys, vals = append(keys, k), append(vals, x)
		m[k] = x
	}
	w := h.Long("search", l, rt.LowerNum)
	switch rt.Choice("cut", 3) {
	case 1:
		w = w[l/2:]
	case 2:
		w = w[:l-1]
	}
	if rt.Bool("not") {
		w = "!" + w
	}
	switch rt.Choice("how", 3) {
	case 0:
		conds = []string{w}
	case 1:
		conds = []string{keys[at] + "=" + w}
	case 2:
		for i, k := range keys {
			c := k + "=same"
			if i == at {
				c = k + "=" + w
			}
			conds = append(conds, c)
		}
	}
	check("large", keys, vals, m, conds)
}
