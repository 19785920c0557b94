package main

import (
	"net/url"
	"strconv"
	"strings"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
	h "github.com/DaoCloud/ckube/zzverif/hlib"
	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

// p29cmd is a kubectl command line as kubectl reads it.
type p29cmd struct {
	words, flags []string
	selector     string
	manager      string
}

func p29parse(args []string) (c p29cmd, ok bool) {
	for i := 0; i < len(args); i++ {
		a := args[i]
		next := func() string {
			i++
			if i < len(args) {
				return args[i]
			}
			ok = false
			return ""
		}
		ok = true
		switch {
		case a == "-l" || a == "--selector":
			c.selector = next()
		case strings.HasPrefix(a, "--selector="):
			c.selector = strings.TrimPrefix(a, "--selector=")
		case strings.HasPrefix(a, "-l="):
			c.selector = strings.TrimPrefix(a, "-l=")
		case strings.HasPrefix(a, "-l"):
			c.selector = strings.TrimPrefix(a, "-l")
		case a == "--field-manager":
			c.manager = next()
		case strings.HasPrefix(a, "--field-manager="):
			c.manager = strings.TrimPrefix(a, "--field-manager=")
		case a == "-n" || a == "-o":
			c.flags = append(c.flags, a+" "+next())
		case strings.HasPrefix(a, "-"):
			c.flags = append(c.flags, a)
		default:
			c.words = append(c.words, a)
		}
		if !ok {
			return
		}
	}
	return c, true
}

// p29selector puts a selector on the command line in one of the ways kubectl knows.
func p29selector(s string) []string {
	switch rt.Choice("form", 5) {
	case 0:
		return []string{"-l", s}
	case 1:
		return []string{"--selector", s}
	case 2:
		return []string{"--selector=" + s}
	case 3:
		return []string{"-l" + s}
	}
	return []string{"-l=" + s}
}

// p29order is any order of the parts in which the first two, the subcommand
// and its first argument, stay in order.
func p29order(parts [][]string) (r []string) {
	sub := true
	for len(parts) > 0 {
		i := 0
		switch {
		case len(parts) == 1:
		case sub:
			i = rt.Choice("next", len(parts)-1)
			if i == 0 {
				sub = false
			} else {
				i++
			}
		default:
			i = rt.Choice("next", len(parts))
		}
		r = append(r, parts[i]...)
		rest := append([][]string(nil), parts[:i]...)
		parts = append(rest, parts[i+1:]...)
	}
	return r
}

// p29run runs the plugin; exit is the status of kubectl.
func p29run(exit int, args []string) (int, []string) {
	code, _, calls := rt.RunMain(main, exit, args)
	if len(calls) == 0 {
		return code, nil
	}
	rt.Assert("once", len(calls) == 1 && calls[0][0] == "kubectl", "the plugin runs something else than one kubectl")
	return code, calls[0][1:]
}

func p29count(l []string, x string) (n int) {
	for _, y := range l {
		if x == y {
			n++
		}
	}
	return n
}

// CheckGet: a get with clusters lists what the user's selector selects in
// exactly these clusters, however the selector is spelled and wherever it stands.
func CheckGet() {
	h.FewValues()
	cs := []string{h.Word("cluster", 1)}
	if rt.Bool("second") {
		cs = append(cs, "c2")
	}
	kind := []string{"pods", "get", "create", "l"}[rt.Choice("kind", 4)]
	parts := [][]string{{"get"}, {kind}, {"--clusters", strings.Join(cs, ",")}}
	var rs []h.Req
	var flags []string
	switch rt.Choice("flags", 4) {
	case 1:
		parts = append(parts, []string{"-o", "yaml"})
		flags = []string{"-o yaml"}
	case 2:
		parts = append(parts, []string{"-n", "ns"}, []string{"-w"})
		flags = []string{"-n ns", "-w"}
	case 3:
		rs = []h.Req{h.OneOf("app", h.Word("val", 1))}
		parts = append(parts, p29selector(rs[0].Text()))
		rt.Cover("selector")
	}
	p29get(kind, cs, rs, flags, p29order(parts))
}

// CheckSelector: the same for any selector.
func CheckSelector() {
	h.FewValues()
	var rs []h.Req
	var text []string
	for i, n := 0, 1+rt.Choice("reqs", rt.Bound("reqs", 2, 3)); i < n; i++ {
		r := h.MkReq([]string{"app", "a"}, 1)
		rs = append(rs, r)
		text = append(text, r.Text())
	}
	cs := []string{h.Word("cluster", 1), "c2"}
	p29get("pods", cs, rs, nil, []string{"get", "pods", "-l", strings.Join(text, ","), "--clusters", strings.Join(cs, ",")})
}

func p29get(kind string, cs []string, rs []h.Req, flags, line []string) {
	code, args := p29run(0, line)
	rt.Assert("runs", args != nil && code == 0, "a legal get is not run")
	c, ok := p29parse(args)
	rt.Assert("legal", ok && h.Same(c.words, []string{"get", kind}), "kubectl is run with other words than the user's")
	rt.Assert("flags", len(c.flags) == len(flags), "kubectl is run with other flags than the user's")
	for _, f := range flags {
		rt.Assert("flags", p29count(c.flags, f) == 1, "kubectl is run with other flags than the user's")
	}

	h.Config("c1", "")
	s := h.Store()
	type pod struct {
		c, name string
		ls      map[string]string
	}
	have := []pod{
		{h.Word("has", 1), "p0", map[string]string{"app": h.Word("app", 1)}},
		{"c1", "p1", nil},
		{h.Word("has", 1), "p2", nil},
	}
	for _, p := range have {
		o := h.Pod("ns", p.name)
		o.Labels = p.ls
		_ = s.OnResourceAdded(h.Pods, p.c, o)
	}
	res, w := h.Call(s, nil, h.PodList("", "labelSelector="+url.QueryEscape(c.selector)))
	l := h.AsList(res, w)
	rt.Assert("served", l.OK, "the server refuses the selector")
	if !l.OK {
		return
	}
	got := h.Names(l.Items)
	for _, p := range have {
		want := 0
		if p29count(cs, p.c) > 0 {
			want = 1
		}
		for _, r := range rs {
			if !r.Holds(p.ls) {
				want = 0
			}
		}
		rt.Assert("selected", p29count(got, p.c+"/ns/"+p.name) == want, "the list is not what the user selected in the clusters they named")
	}
}

// CheckRefuse: clusters or selectors that can not be asked for are reported,
// never answered with another cluster's resources.
func CheckRefuse() {
	parts := [][]string{{"get"}, {"pods"}}
	if rt.Bool("bad clusters") {
		bad := []string{"c1,", ",", ",c2", "a b", "\"", "c1,-"}[rt.Choice("clusters", 6)]
		parts = append(parts, []string{"--clusters", bad})
		if rt.Bool("selector") {
			parts = append(parts, p29selector("app=x"))
		}
	} else {
		parts = append(parts, []string{"--clusters", "c2"}, p29selector([]string{"app > 1", "app in (", "a b"}[rt.Choice("bad selector", 3)]))
	}
	code, args := p29run(0, p29order(parts))
	rt.Assert("refused", args == nil && code != 0, "a get is run although it can not be kept to the clusters it names")
}

// CheckCreate: a create goes to exactly one cluster, the one it names.
func CheckCreate() {
	c := rt.Str("cluster", 1+rt.Choice("more", rt.Bound("name_len", 2, 4)), rt.LowerNum+"-.")
	one := true
	if rt.Bool("second") {
		c += "," + rt.Str("second", rt.Choice("second len", 2), rt.LowerNum)
		one = false
	}
	kind := []string{"configmap", "get", "update"}[rt.Choice("kind", 3)]
	parts := [][]string{{"create"}, {kind, "x"}, {"--clusters", c}, {"-n", "ns"}}
	exit := rt.Choice("exit", 2)
	code, args := p29run(exit, p29order(parts))
	if !one {
		rt.Assert("one", args == nil && code != 0, "a create for several clusters is run")
		return
	}
	p, ok := p29parse(args)
	o, err := page.QueryCreateOptions(metav1.CreateOptions{}, c)
	rt.Assert("cluster", err == nil && ok && p.manager == o.FieldManager, "a create does not name the cluster the user gave")
	rt.Assert("rest", h.Same(p.words, []string{"create", kind, "x"}) && p.selector == "" && h.Same(p.flags, []string{"-n ns"}), "the user's arguments are changed")
	rt.Assert("status", code == exit, "the plugin hides how kubectl ended")
}

// CheckPlain: without clusters kubectl gets exactly the user's arguments;
// subcommands the plugin does not know are not run; kubectl's status is passed on.
func CheckPlain() {
	cmd := []string{"get", "create", "delete", "edit"}[rt.Choice("command", 4)]
	parts := [][]string{{cmd}, {"x"}}
	for i, n := 0, rt.Choice("parts", rt.Bound("parts", 2, 4)); i < n; i++ {
		switch rt.Choice("part", 4) {
		case 0:
			w := rt.Str("word", 1+rt.Choice("len", 4), rt.LowerNum)
			// the plugin can not tell these from its subcommands behind flags
			rt.Assume(w != "get" || cmd == "get" || cmd == "create")
			parts = append(parts, []string{w})
		case 1:
			parts = append(parts, []string{"-o", rt.Str("format", 4, rt.LowerNum)})
		case 2:
			parts = append(parts, p29selector("app="+rt.Str("value", 1, rt.Printable)))
		case 3:
			parts = append(parts, []string{"--cluster", "x"})
		}
	}
	args := p29order(parts)
	exit := []int{0, 1, 7, 255}[rt.Choice("exit", 4)]
	code, got := p29run(exit, args)
	if cmd == "get" || cmd == "create" {
		rt.Assert("same", got != nil && len(got) == len(args), "kubectl does not get the user's arguments")
		for i := range got {
			rt.Assert("same", got[i] == args[i], "kubectl does not get the user's arguments")
		}
		rt.Assert("status", code == exit, "the plugin hides how kubectl ended")
	} else {
		rt.Assert("unknown", got == nil && code != 0, "a subcommand that is not supported is run")
	}
}

// CheckLarge: many clusters, long names and long selectors.
func CheckLarge() {
	l := []int{3, 30, 61}[rt.Choice("length", 3)]
	n := []int{3, 12, 40}[rt.Choice("clusters", rt.Bound("clusters", 2, 3))]
	var cs []string
	for i := 0; i < n; i++ {
		cs = append(cs, h.Filler(l)+strconv.Itoa(10+i))
	}
	at := []int{0, n / 2, n - 1}[rt.Choice("at", 3)]
	cs[at] = h.Long("cluster", l, rt.LowerNum)
	var vs []string
	for i := 0; i < n; i++ {
		vs = append(vs, "v"+h.Filler(l-1)+strconv.Itoa(10+i))
	}
	vs[at] = h.Long("value", l, rt.LowerNum)
	rs := []h.Req{h.In("app", rt.Bool("not"), vs)}
	p29getOf(cs, "v"+h.Filler(l-1)+"10", cs[at], rs, []string{"get", "pods", "-l", rs[0].Text(), "--clusters", strings.Join(cs, ",")})
}

// p29getOf is p29get over pods with given labels and clusters.
func p29getOf(cs []string, app, cluster string, rs []h.Req, line []string) {
	code, args := p29run(0, line)
	rt.Assert("runs", args != nil && code == 0, "a legal get is not run")
	c, ok := p29parse(args)
	rt.Assert("legal", ok && h.Same(c.words, []string{"get", "pods"}) && len(c.flags) == 0, "kubectl is run with other words than the user's")
	h.Config("c1", "")
	s := h.Store()
	have := [][3]string{{cluster, "p0", app}, {cs[0], "p1", h.Long("has", len(cluster), rt.LowerNum)}, {"c1", "p2", app}}
	for _, o := range have {
		p := h.Pod("ns", o[1])
		p.Labels = map[string]string{"app": o[2]}
		_ = s.OnResourceAdded(h.Pods, o[0], p)
	}
	res, w := h.Call(s, nil, h.PodList("", "labelSelector="+url.QueryEscape(c.selector)))
	li := h.AsList(res, w)
	rt.Assert("served", li.OK, "the server refuses the selector")
	got := h.Names(li.Items)
	for _, o := range have {
		want := 0
		if p29count(cs, o[0]) > 0 && rs[0].Holds(map[string]string{"app": o[2]}) {
			want = 1
		}
		rt.Assert("large", p29count(got, o[0]+"/ns/"+o[1]) == want, "the list is not what a long selector selects in the clusters named")
	}
}
