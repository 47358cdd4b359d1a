package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/spacemonkeygo/monkit/v3"
)

// C12: series keys and tag sets.

// parseSeries reads back the line form: measurement,k=v,k=v field.
func parseSeries(s string, field bool) (meas string, tags [][2]string, f string, err error) {
	i := 0
	word := func(stop string) string {
		var b strings.Builder
		for i < len(s) {
			if s[i] == '\\' && i+1 < len(s) && strings.IndexByte(", =", s[i+1]) >= 0 {
				b.WriteByte(s[i+1])
				i += 2
				continue
			}
			if strings.IndexByte(stop, s[i]) >= 0 {
				break
			}
			b.WriteByte(s[i])
			i++
		}
		return b.String()
	}
	meas = word(", ")
	for i < len(s) && s[i] == ',' {
		i++
		k := word("=, ")
		if i >= len(s) || s[i] != '=' {
			return "", nil, "", fmt.Errorf("no = after tag %q in %q", k, s)
		}
		i++
		v := word("=, ")
		tags = append(tags, [2]string{k, v})
	}
	if field {
		if i >= len(s) || s[i] != ' ' {
			return "", nil, "", fmt.Errorf("no field in %q", s)
		}
		i++
		f = word("")
	}
	if i != len(s) {
		return "", nil, "", fmt.Errorf("trailing %q in %q", s[i:], s)
	}
	return meas, tags, f, nil
}

func checkKey(k monkit.SeriesKey, meas string, tags map[string]string) {
	check(k.Measurement == meas, "measurement %q, want %q", k.Measurement, meas)
	check(k.Tags.Len() == len(tags), "%d tags, want %d", k.Tags.Len(), len(tags))
	for t, v := range tags {
		check(k.Tags.Get(t) == v, "tag %q is %q, want %q", t, k.Tags.Get(t), v)
	}
	check(k.Tags.Get("absent") == "", "a tag never set is %q", k.Tags.Get("absent"))
	all := k.Tags.All()
	check(len(all) == len(tags), "%d tags listed, want %d", len(all), len(tags))
	for t, v := range all {
		w, ok := tags[t]
		check(ok && w == v, "tag %q=%q listed", t, v)
	}
}

// checkLine parses the rendering back.
func checkLine(k monkit.SeriesKey, meas string, tags map[string]string) {
	var want [][2]string
	for t, v := range tags {
		want = append(want, [2]string{t, v})
	}
	sort.Slice(want, func(i, j int) bool { return want[i][0] < want[j][0] })
	for twice := 0; twice < 2; twice++ {
		m, ts, _, err := parseSeries(k.String(), false)
		check(err == nil && m == meas && fmt.Sprintf("%q", ts) == fmt.Sprintf("%q", want), "%q reads back as %q %q (%v), want %q %q", k.String(), m, ts, err, meas, want)
		for _, f := range []string{"f", "a b", "x=y,z"} {
			m, ts, g, err := parseSeries(k.WithField(f), true)
			check(err == nil && m == meas && g == f && fmt.Sprintf("%q", ts) == fmt.Sprintf("%q", want), "%q reads back as %q %q %q (%v), want %q %q %q", k.WithField(f), m, ts, g, err, meas, want, f)
		}
		if len(tags) > 0 {
			check(k.String() == m+suffixAfter(k, meas), "rendering changed")
		}
		check(k.Tags.String() == strings.TrimPrefix(strings.TrimPrefix(k.String(), escMeas(meas)), ","), "tags render as %q within %q", k.Tags.String(), k.String())
	}
}

func suffixAfter(k monkit.SeriesKey, meas string) string {
	return strings.TrimPrefix(k.String(), meas)
}

func escMeas(m string) string {
	return strings.NewReplacer(",", `\,`, " ", `\ `).Replace(m)
}

func init() {
	words := []string{"a", "b", "a b", "a,b", "a=b", " ", ",", "=", "a, b=c", "\n", "é", ""}
	// every key, value and measurement of these words reads back
	seq("C12", "render", func() {
		meas := pick(words...)
		k := monkit.NewSeriesKey(meas)
		tags := map[string]string{}
		n := choose(3)
		for i := 0; i < n; i++ {
			t, v := pick(words...), pick(words...)
			k = k.WithTag(t, v)
			tags[t] = v
		}
		checkKey(k, meas, tags)
		for i := 0; i < 2; i++ {
			var want [][2]string
			for t, v := range tags {
				want = append(want, [2]string{t, v})
			}
			sort.Slice(want, func(i, j int) bool { return want[i][0] < want[j][0] })
			m, ts, _, err := parseSeries(k.String(), false)
			check(err == nil && m == meas && fmt.Sprintf("%q", ts) == fmt.Sprintf("%q", want), "%q reads back as %q %q (%v), want %q %q", k.String(), m, ts, err, meas, want)
			f := words[(len(meas)+n)%len(words)]
			m, ts, g, err := parseSeries(k.WithField(f), true)
			check(err == nil && m == meas && g == f && fmt.Sprintf("%q", ts) == fmt.Sprintf("%q", want), "%q reads back as %q %q %q (%v), want %q %q %q", k.WithField(f), m, ts, g, err, meas, want, f)
		}
	})
	// all byte pairs in each place
	seq("C12", "bytes", func() {
		a, b := choose(256), choose(256)
		w := string([]byte{byte(a), byte(b)})
		if strings.Contains(w, `\`) {
			return
		}
		k := monkit.NewSeriesKey(w).WithTag(w, w).WithTag("k", w)
		m, ts, f, err := parseSeries(k.WithField(w), true)
		check(err == nil && m == w && f == w && len(ts) == 2, "%q reads back as %q %q %q (%v)", k.WithField(w), m, ts, f, err)
		for _, t := range ts {
			check((t[0] == w || t[0] == "k") && t[1] == w, "%q reads back with tags %q", k.WithField(w), ts)
		}
	})
	// histories: derived keys never disturb those they came from
	seq("C12", "histories", func() {
		type kv struct {
			k    monkit.SeriesKey
			tags map[string]string
		}
		cp := func(m map[string]string) map[string]string {
			n := map[string]string{}
			for k, v := range m {
				n[k] = v
			}
			return n
		}
		all := []kv{{monkit.NewSeriesKey("m"), map[string]string{}}}
		n := q(4, 5)
		start := choose(4)
		if start > 0 {
			n--
		}
		switch start { // tag sets that are empty, but there
		case 1:
			all[0].k = all[0].k.WithTags()
		case 2:
			all[0].k.Tags = all[0].k.Tags.SetAll(nil)
		case 3:
			all[0].k.Tags = new(monkit.TagSet)
		}
		for i := 0; i < n; i++ {
			src := all[choose(len(all))]
			n := kv{src.k, cp(src.tags)}
			v := fmt.Sprint("v", i)
			switch choose(8) {
			case 0:
				n.k = src.k.WithTag("a", v)
				n.tags["a"] = v
			case 1:
				n.k = src.k.WithTag("b", v)
				n.tags["b"] = v
			case 2:
				n.k = src.k.WithTags()
			case 3: // the later of two wins
				ts := []monkit.SeriesTag{{Key: "a", Val: "x"}, {Key: "c", Val: v}, {Key: "a", Val: v}}
				n.k = src.k.WithTags(ts...)
				n.tags["a"], n.tags["c"] = v, v
				ts[1].Val = "changed"
			case 4:
				m := map[string]string{"a": v, "d": v}
				n.k.Tags = src.k.Tags.SetAll(m)
				n.tags["a"], n.tags["d"] = v, v
				m["a"] = "changed"
				m["e"] = "added"
			case 5:
				n.k.Tags = src.k.Tags.Set("", v)
				n.tags[""] = v
			case 6:
				_ = src.k.String() // rendering first must not stick to derived keys
				n.k = src.k.WithTag("b", "")
				n.tags["b"] = ""
			case 7:
				n.k.Tags = src.k.Tags.SetTags(monkit.NewSeriesTag("a", v))
				n.tags["a"] = v
			}
			all = append(all, n)
			for _, x := range all {
				checkKey(x.k, "m", x.tags)
			}
		}
		for _, x := range all {
			checkLine(x.k, "m", x.tags)
			checkKey(x.k, "m", x.tags)
		}
	})
	// every way to add tags, with empty and repeated values
	seq("C12", "apis", func() {
		k := monkit.NewSeriesKey("m")
		tags := map[string]string{}
		keys, vals := []string{"a", "b", ""}, []string{"", "a", "x"}
		for i := 0; i < q(2, 3); i++ {
			before, was := k, fmt.Sprint(tags)
			switch choose(5) {
			case 0:
				t, v := pick(keys...), pick(vals...)
				k = k.WithTag(t, v)
				tags[t] = v
			case 1, 2:
				var ts []monkit.SeriesTag
				for j := choose(3); j > 0; j-- {
					t, v := pick(keys...), pick(vals...)
					ts = append(ts, monkit.NewSeriesTag(t, v))
					tags[t] = v
				}
				given := fmt.Sprint(ts)
				k = k.WithTags(ts...)
				check(fmt.Sprint(ts) == given, "the tags passed in were changed")
			case 3:
				m := map[string]string{}
				for j := choose(3); j > 0; j-- {
					t, v := pick(keys...), pick(vals...)
					m[t] = v
					tags[t] = v
				}
				given := fmt.Sprint(m)
				k.Tags = k.Tags.SetAll(m)
				check(fmt.Sprint(m) == given, "the map passed in was changed")
			case 4:
				t, v := pick(keys...), pick(vals...)
				k.Tags = k.Tags.Set(t, v)
				tags[t] = v
			}
			check(fmt.Sprint(before.Tags.All()) == was || was == "map[]" && before.Tags.Len() == 0, "a tag set changed from %s to %v", was, before.Tags.All())
		}
		checkKey(k, "m", tags)
		checkLine(k, "m", tags)
	})
	seq("C12", "nil", func() {
		var t *monkit.TagSet
		check(t.Len() == 0 && t.Get("a") == "" && t.String() == "" && len(t.All()) == 0, "the nil tag set is not empty")
		u := t.Set("a", "b")
		check(u.Len() == 1 && t.Len() == 0, "set on nil")
		z := new(monkit.TagSet)
		check(z.Len() == 0 && z.Get("a") == "" && z.String() == "" && z.Set("a", "b").Get("a") == "b" && z.SetTags().Len() == 0 && z.SetAll(nil).Len() == 0, "the zero tag set is not empty")
	})
	// distinct keys collect under distinct names
	seq("C12", "collect", func() {
		type c struct {
			m, f string
			t    []string
		}
		cs := []c{{"m", "f", nil}, {"m", "f", []string{"a", "b"}}, {"m,a=b", "f", nil}, {"m", "f", []string{"a", "b c"}}, {"m f", "f", nil}, {"m", "f f", nil}, {"m", "f", []string{"a", "b,c=d"}}, {"m", "f", []string{"a", "b", "c", "d"}}, {"m", "f", []string{"a=b", "c"}}, {"m", "f", []string{"a", "b=c"}}, {"m", "g", []string{"a", "b"}}}
		x, y := choose(len(cs)), choose(len(cs))
		mk := func(c c) monkit.SeriesKey {
			k := monkit.NewSeriesKey(c.m)
			for i := 0; i < len(c.t); i += 2 {
				k = k.WithTag(c.t[i], c.t[i+1])
			}
			return k
		}
		got := monkit.Collect(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
			cb(mk(cs[x]), cs[x].f, 1)
			cb(mk(cs[y]), cs[y].f, 2)
		}))
		if x == y {
			check(len(got) == 1, "%v", got)
			for _, v := range got {
				check(v == 2, "the later value does not win")
			}
		} else {
			check(len(got) == 2, "two statistics collect under one name: %v", got)
		}
	})
	conc("C12", "string-string", Bounds{2, 6}, Bounds{4, 9}, 2, func() {
		k := monkit.NewSeriesKey("m").WithTag("a", "b c").WithTag("d", "e")
		want := `m,a=b\ c,d=e`
		read := func() {
			check(k.String() == want, "%q", k.String())
			check(k.WithTag("a", "z").String() == "m,a=z,d=e", "derived")
			check(k.WithField("f") == want+" f", "field")
		}
		par(read, read)
		read()
	})
	conc("C12", "stats-stats", Bounds{1, 4}, Bounds{2, 6}, 2, func() {
		c := monkit.NewCounter(monkit.NewSeriesKey("m").WithTag("a", "b"))
		c.Inc(3)
		read := func() {
			m := monkit.Collect(c)
			check(len(m) == 3 && m["m,a=b value"] == 3 && m["m,a=b high"] == 3 && m["m,a=b low"] == 3, "%v", m)
		}
		par(read, read)
	})
}
