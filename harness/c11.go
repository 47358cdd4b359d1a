package main

import (
	"fmt"
	"reflect"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
)

// C11: booleans and structures.

type c11field struct {
	val  any
	want map[string]float64 // suffix to value; "" for the field itself
}

type c11named float32
type c11bool bool
type c11sub struct {
	A int
	B bool
	C string
	D float64 `monkit:"ignore"`
	E *int
}
type c11deep struct {
	S c11sub
	P *c11sub
	N *c11sub `monkit:"ignore"`
}
type c11cycle struct {
	V    int
	Next *c11cycle
}

func c11fields() []c11field {
	i, j := 5, 7
	pi := &i
	var ni *int
	var npp **int
	nip := &ni
	var nsub *c11sub
	sub := c11sub{A: 3, B: true, C: "x", D: 9, E: &j}
	subWant := map[string]float64{".A": 3, ".B": 1, ".E": 7}
	one := func(v float64) map[string]float64 { return map[string]float64{"": v} }
	return []c11field{
		{true, one(1)}, {false, one(0)}, {c11bool(true), one(1)},
		{int(-4), one(-4)}, {int8(-8), one(-8)}, {int16(16), one(16)}, {int32(1234567891), one(1234567891)}, {int64(1234567890123), one(1234567890123)}, {int64(-987654321), one(-987654321)}, {int(123456789), one(123456789)},
		{uint(4), one(4)}, {uint8(200), one(200)}, {uint16(60000), one(60000)}, {uint32(3234567891), one(3234567891)}, {uint64(1234567890123457), one(1234567890123457)}, {uintptr(1234567893), one(1234567893)},
		{float32(0.5), one(0.5)}, {float64(1e300), one(1e300)}, {float64(0.1), one(0.1)}, {c11named(2.5), one(2.5)}, {time.Duration(123456789077), one(123456789077)},
		{int(0), one(0)}, {int8(0), one(0)}, {int16(0), one(0)}, {int32(0), one(0)}, {int64(0), one(0)}, {uint(0), one(0)}, {uint8(0), one(0)}, {uint16(0), one(0)}, {uint32(0), one(0)}, {uint64(0), one(0)}, {uintptr(0), one(0)},
		{float32(0), one(0)}, {float64(0), one(0)}, {c11named(0), one(0)}, {c11bool(false), one(0)}, {time.Duration(0), one(0)}, {float32(-2.5), one(-2.5)}, {-1e-300, one(-1e-300)}, {int16(-300), one(-300)}, {int32(-70000), one(-70000)},
		{pi, one(5)}, {&pi, one(5)}, {ni, nil}, {npp, nil}, {nip, nil},
		{"12", nil}, {[]int{1}, nil}, {[2]int{1, 2}, nil}, {map[string]int{"a": 1}, nil}, {func() {}, nil}, {make(chan int), nil}, {complex(1, 2), nil}, {struct{}{}, nil},
		{sub, subWant}, {&sub, subWant}, {nsub, nil}, {c11sub{}, map[string]float64{".A": 0, ".B": 0}},
		{c11deep{S: sub, P: &c11sub{A: 1}}, map[string]float64{".S.A": 3, ".S.B": 1, ".S.E": 7, ".P.A": 1, ".P.B": 0}},
		{c11deep{}, map[string]float64{".S.A": 0, ".S.B": 0}},
		{&c11cycle{V: 1, Next: &c11cycle{V: 2}}, map[string]float64{".V": 1, ".Next.V": 2}},
	}
}

var c11tags = []struct {
	tag string
	ign bool
}{{"", false}, {`monkit:"ignore"`, true}, {`monkit:"x,ignore"`, true}, {`monkit:"ignore,x"`, true}, {`monkit:"ignored"`, false}, {`monkit:"x"`, false}, {`json:"ignore"`, false}, {`monkit:"a,b,ignore"`, true}}

func init() {
	// every structure of up to three fields of these kinds
	seq("C11", "structs", func() {
		fs := c11fields()
		n := pick(1, 2, 3)
		names := []string{"Alpha", "B", "GammaRay"}
		var sf []reflect.StructField
		var vals []any
		want := map[string]float64{}
		k := key("m", "t", "v")
		for i := 0; i < n; i++ {
			var f c11field
			tg := c11tags[0]
			if i == 2 {
				// the third: a few kinds
				f = fs[[]int{0, 3, 40, 51, 53}[choose(5)]]
			} else {
				f = fs[choose(len(fs))]
				if i == 0 {
					tg = c11tags[choose(len(c11tags))]
				}
			}
			sf = append(sf, reflect.StructField{Name: names[i], Type: reflect.TypeOf(f.val), Tag: reflect.StructTag(tg.tag)})
			vals = append(vals, f.val)
			if !tg.ign {
				for suf, v := range f.want {
					want[k+"."+names[i]+suf] = v
				}
			}
		}
		v := reflect.New(reflect.StructOf(sf))
		for i, x := range vals {
			v.Elem().Field(i).Set(reflect.ValueOf(x))
		}
		var data any
		switch choose(3) {
		case 0:
			data = v.Elem().Interface()
		case 1:
			data = v.Interface()
		case 2:
			pp := reflect.New(v.Type())
			pp.Elem().Set(v)
			data = pp.Interface()
		}
		sk := monkit.NewSeriesKey("m").WithTag("t", "v")
		mustSame(statMap(monkit.StatSourceFromStruct(sk, data)), want, fmt.Sprintf("structure %v", v.Type()))
		sv := monkit.NewStructVal(sk)
		sv.Observe(data)
		mustSame(statMap(sv), want, fmt.Sprintf("StructVal %v", v.Type()))
	})
	// what is not a structure has no statistics
	seq("C11", "not-structs", func() {
		var np *c11sub
		var npp **c11sub
		i := 4
		x := pick[any](3, "s", []int{1}, map[string]int{}, true, &i, np, npp, func() {}, nil)
		check(len(stats(monkit.StatSourceFromStruct(monkit.NewSeriesKey("m"), x))) == 0, "statistics of %T", x)
		sv := monkit.NewStructVal(monkit.NewSeriesKey("m"))
		sv.Observe(x)
		check(len(stats(sv)) == 0, "statistics of %T", x)
	})
	seq("C11", "embedded", func() {
		type Inner struct{ A, B int }
		type emb struct {
			Inner
			When time.Time
			I    interface{}
			E    error
			C    int
		}
		x := emb{Inner: Inner{1, 2}, C: 3}
		switch choose(3) {
		case 1:
			x.When = time.Unix(1, 2)
			x.I = 5
		case 2:
			x.When = time.Unix(1, 2).UTC()
			x.I = &x
			x.E = fmt.Errorf("x")
		}
		m := statMap(monkit.StatSourceFromStruct(monkit.NewSeriesKey("m"), x))
		for f, v := range map[string]float64{"Inner.A": 1, "Inner.B": 2, "C": 3} {
			g, ok := m[key("m")+"."+f]
			check(ok && g == v, "%s = %v, want %v", f, g, v)
		}
	})
	seq("C11", "structval-sequences", func() {
		sv := monkit.NewStructVal(monkit.NewSeriesKey("m"))
		type a struct{ X int }
		type b struct{ Y, X bool }
		want := map[string]float64{}
		p := &a{1}
		last := 0
		for i := 0; i < q(5, 6); i++ {
			last = choose(5)
			switch last {
			case 0:
				sv.Observe(a{7})
				want = map[string]float64{key("m") + ".X": 7}
			case 1:
				sv.Observe(b{true, false})
				want = map[string]float64{key("m") + ".X": 0, key("m") + ".Y": 1}
			case 2:
				sv.Observe(p)
				want = map[string]float64{key("m") + ".X": float64(p.X)}
			case 3:
				sv.Observe(nil)
				want = map[string]float64{}
			case 4:
				sv.Observe(&b{})
				want = map[string]float64{key("m") + ".X": 0, key("m") + ".Y": 0}
			}
			mustSame(statMap(sv), want, "the latest observation")
		}
		if last == 2 {
			p.X = 44 // a reference is kept
			mustSame(statMap(sv), map[string]float64{key("m") + ".X": 44}, "referenced value")
		}
	})
	seq("C11", "bools", func() {
		v := monkit.NewBoolVal(monkit.NewSeriesKey("m").WithTag("t", "v"))
		var tr, fa, re float64
		k := key("m", "t", "v")
		for i := 0; i <= q(8, 12); i++ {
			mustSame(statMap(v), map[string]float64{k + ".true": tr, k + ".false": fa, k + ".disposition": tr - fa, k + ".recent": re}, "booleans")
			if choose(2) == 0 {
				v.Observe(true)
				tr++
				re = 1
			} else {
				v.Observe(false)
				fa++
				re = 0
			}
		}
	})
	conc("C11", "bool-conc", Bounds{2, 6}, Bounds{3, 9}, 2, func() {
		v := monkit.NewBoolVal(monkit.NewSeriesKey("m"))
		v.Observe(true)
		k := key("m")
		par(func() { v.Observe(true); v.Observe(false) }, func() { v.Observe(false); v.Observe(true) }, func() {
			m := statMap(v)
			check(m[k+".true"] >= 1 && m[k+".true"] <= 3 && m[k+".false"] <= 2, "%v", m)
			check(m[k+".disposition"] == m[k+".true"]-m[k+".false"], "disposition %v", m)
			check(m[k+".recent"] == 0 || m[k+".recent"] == 1, "recent %v", m)
		})
		m := statMap(v)
		check(m[k+".true"] == 3 && m[k+".false"] == 2 && m[k+".disposition"] == 1, "observations lost: %v", m)
		v.Observe(false)
		check(statMap(v)[k+".recent"] == 0, "recent")
	})
	conc("C11", "bool-same", Bounds{2, 6}, Bounds{3, 9}, 2, func() {
		v := monkit.NewBoolVal(monkit.NewSeriesKey("m"))
		k := key("m")
		par(func() { v.Observe(true) }, func() { v.Observe(true) }, func() { v.Observe(true) })
		m := statMap(v)
		check(m[k+".true"] == 3 && m[k+".false"] == 0 && m[k+".recent"] == 1, "observations lost: %v", m)
	})
	conc("C11", "struct-conc", Bounds{2, 6}, Bounds{3, 9}, 2, func() {
		v := monkit.NewStructVal(monkit.NewSeriesKey("m"))
		type a struct{ X, Y int }
		v.Observe(a{1, 1})
		par(func() { v.Observe(a{2, 2}) }, func() { v.Observe(&a{3, 3}) }, func() {
			m := statMap(v)
			check(len(m) == 2 && m[key("m")+".X"] == m[key("m")+".Y"] && m[key("m")+".X"] >= 1, "mixed report %v", m)
		})
		m := statMap(v)
		check(len(m) == 2 && m[key("m")+".X"] == m[key("m")+".Y"] && m[key("m")+".X"] >= 2, "%v", m)
	})
}
