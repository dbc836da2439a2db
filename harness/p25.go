package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	specerr "github.com/hpinc/go3mf/errors"
	"pgregory.net/rapid"
)

type refErr struct {
	cause  error
	levels []string // innermost first
	path   string
}

// refVal is what an error value is expected to be.
type refVal struct {
	list bool
	errs []refErr
}

func checkErrValue(t *rapid.T, got error, want refVal, trace string) {
	if len(want.errs) == 0 && !want.list {
		if got != nil {
			t.Fatalf("no error expected, got %#v\n%s", got, trace)
		}
		return
	}
	var items []error
	if want.list {
		l, ok := got.(*specerr.List)
		if !ok || l == nil {
			t.Fatalf("a list of %d errors expected, got %T %v\n%s", len(want.errs), got, got, trace)
		}
		items = l.Errors
		if l.Len() != len(items) {
			t.Fatalf("Len %d for %d errors", l.Len(), len(items))
		}
		if len(items) > 0 && l.Unwrap() != items[0] {
			t.Fatalf("unwrapping a list does not give its first error")
		}
	} else {
		items = []error{got}
	}
	if len(items) != len(want.errs) {
		t.Fatalf("%d errors, want %d\n%s", len(items), len(want.errs), trace)
	}
	for i, w := range want.errs {
		g := items[i]
		if !errors.Is(g, w.cause) {
			t.Fatalf("error %d: %v does not contain its cause %v\n%s", i, g, w.cause, trace)
		}
		if len(w.levels) == 0 && w.path == "" {
			if g != w.cause {
				t.Fatalf("error %d: %v is not the error itself\n%s", i, g, trace)
			}
			continue
		}
		e, ok := g.(*specerr.Error)
		if !ok {
			t.Fatalf("error %d has type %T\n%s", i, g, trace)
		}
		var lv []string
		for j := len(w.levels) - 1; j >= 0; j-- {
			lv = append(lv, w.levels[j])
		}
		xp := "/" + strings.Join(lv, "/")
		if e.XPath() != xp || e.Path != w.path || e.Err != w.cause || errors.Unwrap(e) != w.cause {
			t.Fatalf("error %d: path %q xpath %q cause %v, want %q %q %v\n%s", i, e.Path, e.XPath(), e.Err, w.path, xp, w.cause, trace)
		}
		text := e.Error()
		for _, part := range []string{xp, w.path, w.cause.Error()} {
			if !strings.Contains(text, part) {
				t.Fatalf("the text %q lacks %q\n%s", text, part, trace)
			}
		}
	}
	if len(want.errs) > 0 {
		text := got.Error()
		pos := 0
		for _, w := range want.errs {
			i := strings.Index(text[pos:], w.cause.Error())
			if i < 0 {
				t.Fatalf("the text %q lacks %q in order\n%s", text, w.cause, trace)
			}
			pos += i + len(w.cause.Error())
		}
	}
}

func checkErrors(t *rapid.T, c *C) {
	var trace []string
	n := 0
	var gen func(depth int) (error, refVal)
	leaf := func() (error, refVal) {
		n++
		var e error
		switch drawInt(t, 0, 2, "leaf") {
		case 0:
			e = fmt.Errorf("cause-%d.", n)
		case 1:
			e = specerr.NewMissingFieldError(fmt.Sprintf("field-%d.", n))
		default:
			e = specerr.NewParseAttrError(fmt.Sprintf("attr-%d.", n), drawBool(t, "required"))
		}
		return e, refVal{errs: []refErr{{cause: e}}}
	}
	wrapRef := func(v refVal, lv string, path *string) refVal {
		out := refVal{list: v.list}
		for _, e := range v.errs {
			x := refErr{e.cause, append(append([]string(nil), e.levels...), lv), e.path}
			if path != nil {
				x.path = *path
			}
			out.errs = append(out.errs, x)
		}
		return out
	}
	gen = func(depth int) (error, refVal) {
		if depth == 0 {
			if oneIn(t, 4, "nil") {
				return nil, refVal{}
			}
			return leaf()
		}
		name := pick(t, "name", "model", "resources", "object", "mesh", "a-b", "é")
		switch drawInt(t, 0, 5, "op") {
		case 0:
			e, v := gen(depth - 1)
			trace = append(trace, "Wrap "+name)
			return specerr.Wrap(e, name), wrapRef(v, name, nil)
		case 1:
			e, v := gen(depth - 1)
			i := pick(t, "index", 0, 1, 2, 10, 1000000, 1<<24+1, 1<<31-1, 1<<40)
			trace = append(trace, fmt.Sprintf("WrapIndex %s %d", name, i))
			return specerr.WrapIndex(e, name, i), wrapRef(v, fmt.Sprintf("%s[%d]", name, i), nil)
		case 2:
			e, v := gen(depth - 1)
			p := pick(t, "part", "/3D/a.model", "/b.model")
			trace = append(trace, "WrapPath "+name+" "+p)
			return specerr.WrapPath(e, name, p), wrapRef(v, name, &p)
		default:
			k := drawInt(t, 0, 4, "nargs")
			if depth == 1 && oneIn(t, 400, "wide") {
				k = drawInt(t, 5, 2000, "nargs")
			}
			first, v := gen(depth - 1)
			var args []error
			out := refVal{list: v.list, errs: v.errs}
			for i := 0; i < k; i++ {
				e, w := gen(depth - 1 - drawInt(t, 0, depth-1, "less"))
				args = append(args, e)
				out.errs = append(out.errs[:len(out.errs):len(out.errs)], w.errs...)
			}
			if k > 0 && len(out.errs) > 0 {
				out.list = true
			}
			trace = append(trace, fmt.Sprintf("Append of %d", k))
			return specerr.Append(first, args...), out
		}
	}
	got, want := gen(drawInt(t, 0, 4, "depth"))
	c.Eval()
	checkErrValue(t, got, want, strings.Join(trace, "\n"))
	deep := 0
	for _, e := range want.errs {
		if len(e.levels) > deep {
			deep = len(e.levels)
		}
	}
	c.LabelIf(len(want.errs) == 0, "no-error")
	if want.list && len(want.errs) > 1 && deep > 0 {
		c.NonTrivial([]byte(strings.Join(trace, "\n") + fmt.Sprint(len(want.errs))))
	}
	c.Sample(strings.Join(trace, "; "))
}

// checkKept: combining takes over the list it is given first and leaves every other list as it was.
func checkKept(t *rapid.T, c *C) {
	var trace []string
	n := 0
	leaf := func() error {
		n++
		return fmt.Errorf("cause-%d.", n)
	}
	var pool []error
	var want [][]error
	take := func(l string) int { return drawInt(t, 0, len(pool)-1, l) }
	check := func() {
		for i, e := range pool {
			got := e.(*specerr.List).Errors
			same := len(got) == len(want[i])
			for j := 0; same && j < len(got); j++ {
				same = got[j] == want[i][j]
			}
			if !same {
				t.Fatalf("list %d has %v, want %v\n%s", i, got, want[i], strings.Join(trace, "\n"))
			}
		}
	}
	steps := drawInt(t, 1, 8, "steps")
	c.Eval()
	combined := 0
	for s := 0; s < steps; s++ {
		if len(pool) == 0 || oneIn(t, 4, "new") {
			k := drawInt(t, 0, 3, "size")
			l := &specerr.List{}
			if drawBool(t, "spare") {
				l.Errors = make([]error, 0, 8)
			}
			for i := 0; i < k; i++ {
				l.Errors = append(l.Errors, leaf())
			}
			pool, want = append(pool, l), append(want, append([]error(nil), l.Errors...))
			trace = append(trace, fmt.Sprintf("list %d of %d", len(pool)-1, k))
		}
		first, exp, rec := error(nil), []error(nil), -1
		txt := "Append(nil"
		switch drawInt(t, 0, 3, "first") {
		case 0:
			first = leaf()
			exp = []error{first}
			txt = "Append(leaf"
		case 1, 2:
			rec = take("list")
			first, exp = pool[rec], want[rec]
			txt = fmt.Sprintf("Append(list %d", rec)
		}
		var args []error
		for k := drawInt(t, 1, 3, "nargs"); k > 0; k-- {
			if i := take("arg"); i != rec && drawBool(t, "list") {
				args, exp = append(args, pool[i]), append(exp[:len(exp):len(exp)], want[i]...)
				txt += fmt.Sprintf(", list %d", i)
				combined++
			} else {
				e := leaf()
				args, exp = append(args, e), append(exp[:len(exp):len(exp)], e)
				txt += ", leaf"
			}
		}
		trace = append(trace, txt+")")
		got := specerr.Append(first, args...)
		l, ok := got.(*specerr.List)
		if !ok {
			if len(exp) == 0 && got == nil { // only empty lists were combined
				check()
				continue
			}
			t.Fatalf("%T %v instead of a list of %d errors\n%s", got, got, len(exp), strings.Join(trace, "\n"))
		}
		if rec >= 0 { // what becomes of the first list is not settled, the result stands for it
			pool[rec], want[rec] = l, exp
		} else {
			pool, want = append(pool, l), append(want, exp)
		}
		check()
	}
	if combined > 1 {
		c.NonTrivial([]byte(strings.Join(trace, "\n")))
	}
	c.Sample(strings.Join(trace, "; "))
}

// checkSorted: a list can be put in order with package sort, which keeps every error.
func checkSorted(t *rapid.T, c *C) {
	c.Eval()
	l := new(specerr.List)
	for k := drawInt(t, 0, 14, "n"); k > 0; k-- {
		var e error = errors.New(pick(t, "text", "a", "b", "c", "ab", "", "Z", "é"))
		if drawBool(t, "wrap") {
			e = specerr.Wrap(e, pick(t, "name", "m", "n"))
		}
		l.Errors = append(l.Errors, e)
	}
	in := append([]error(nil), l.Errors...)
	want := append([]error(nil), in...)
	sort.SliceStable(want, func(i, j int) bool { return want[i].Error() < want[j].Error() })
	if drawBool(t, "stable") {
		sort.Stable(l)
		for i := range want {
			if l.Errors[i] != want[i] {
				t.Fatalf("sorting %v stably gave %v, want %v", in, l.Errors, want)
			}
		}
	} else {
		sort.Sort(l)
	}
	left := map[error]int{}
	for _, e := range in {
		left[e]++
	}
	if len(l.Errors) != len(in) {
		t.Fatalf("sorting %d errors left %d", len(in), len(l.Errors))
	}
	for i, e := range l.Errors {
		left[e]--
		if left[e] < 0 || e.Error() != want[i].Error() {
			t.Fatalf("sorting %v gave %v, want %v", in, l.Errors, want)
		}
	}
	if len(in) > 3 {
		c.NonTrivial([]byte(fmt.Sprint(in)))
	}
}

func init() {
	register(&Sub{Prop: "P25", Name: "sorted", Rule: "random lists sorted with package sort; non-trivial = more than three errors", Quick: 60000, Thorough: 2000000, Fn: checkSorted})
	register(&Sub{Prop: "P25", Name: "kept", Rule: "a growing set of lists, some with spare room, combined one with another; after every step each holds exactly the errors it should; non-trivial = at least two combinations of lists", Quick: 100000, Thorough: 3000000, Fn: checkKept})
	register(&Sub{Prop: "P25", Name: "algebra", Rule: "random expressions over the wrapping and combining functions, evaluated next to a reference list; non-trivial = more than one error and at least one location level", Quick: 250000, Thorough: 8000000, Fn: checkErrors})
}
