package main

// Models of time and math/big.

import (
	"go/types"
	"math/big"
)

// LocV is a fixed location.
type LocV struct{ off Lin }

func locOf(v Val) (zone string, off Lin, ok bool) {
	switch x := v.(type) {
	case Opaque:
		switch x.tag {
		case "time.UTC":
			return "UTC", Lin{}, true
		case "time.Local":
			return "Local!", Lin{}, true
		}
	case LocV:
		return "fixed", x.off, true
	}
	return "", Lin{}, false
}

const nsSec = int64(1e9)

func divLin(l Lin, k int64) (Lin, bool) {
	if l.c%k != 0 {
		return Lin{}, false
	}
	out := Lin{c: l.c / k}
	for _, t := range l.t {
		if t.k%k != 0 {
			return Lin{}, false
		}
		out.t = append(out.t, Term{t.s, t.k / k})
	}
	return out, true
}

func (in *Interp) env(st *State, what string, ctx *callCtx) {
	in.event(st, "env "+what, ctx.pos)
}

// civil gives the normalised civil fields of an instant in its own zone.
func (in *Interp) civil(st *State, t *TimeV, ctx *callCtx) []timeWorld {
	name := "fields of an unknown instant"
	if t.zone == "Local!" {
		in.env(st, "local time zone", ctx)
		t = &TimeV{opaque: true, id: st.newInt(-inf, inf, "local instant"), zone: "UTC"}
		name = "fields of local time"
	}
	if t.opaque {
		y, m, d, s := st.newInt(-300000, 300000, name), st.newInt(1, 12, name), st.newInt(1, 31, name), st.newInt(0, 86399, name)
		return []timeWorld{{st, &TimeV{y: linS(y), m: linS(m), d: linS(d), sod: linS(s), zone: t.zone}}}
	}
	return st.normSod(t)
}

func (in *Interp) opaqueTime(st *State, zone string) *TimeV {
	name := "instant"
	if zone == "Local!" {
		name = "local instant"
	}
	return &TimeV{opaque: true, id: st.newInt(-inf, inf, name), zone: zone}
}

func init() {
	models["time.Now"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		in.env(st, "clock", ctx)
		return ret1(st, in.opaqueTime(st, "Local!"))
	}
	parse := func(loc bool) modelFn {
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			layout, ok := st.constStr(strOf(args[0]))
			zone, off := "", Lin{}
			if loc {
				var k bool
				zone, off, k = locOf(args[2])
				if !k {
					giveUp("unknown location")
				}
			}
			if !ok {
				n := st.clone()
				return []Ret{{st: st, v: Tuple{in.opaqueTime(st, "Local!"), Nil{}}}, {st: n, v: Tuple{zeroTime(), in.errIface("time.Parse", n.anyStr("error text"))}}}
			}
			var out []Ret
			for _, w := range st.parseTime(layout, strOf(args[1])) {
				if w.err != "" {
					out = append(out, Ret{st: w.st, v: Tuple{zeroTime(), in.errIface("time.Parse", w.st.anyStr("error text"))}})
					continue
				}
				t := *w.t
				if loc {
					if t.zone == "UTC" { // no zone in the layout, or Z
						switch zone {
						case "UTC":
						case "fixed":
							t.zone, t.off = "fixed", off
						default:
							in.env(w.st, "local time zone", ctx)
							t = *in.opaqueTime(w.st, "Local!")
						}
					} else if t.zone == "local" && zone != "Local!" {
						t.zone = "fixed"
					}
				}
				out = append(out, Ret{st: w.st, v: Tuple{&t, Nil{}}})
			}
			return out
		}
	}
	models["time.Parse"] = parse(false)
	models["time.ParseInLocation"] = parse(true)
	models["time.Date"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		zone, off, ok := locOf(args[7])
		if _, isNil := args[7].(Nil); isNil {
			return []Ret{{st: st, panic: &PanicInfo{msg: "time: missing Location in call to Date", pos: ctx.pos}}}
		}
		if !ok {
			giveUp("unknown location")
		}
		if zone == "Local!" {
			in.env(st, "local time zone", ctx)
			return ret1(st, in.opaqueTime(st, "Local!"))
		}
		l := func(i int) Lin { return args[i].(Lin) }
		t := &TimeV{y: l(0), m: l(1), d: l(2), sod: l(3).scale(3600).plus(l(4).scale(60)).plus(l(5)), ns: l(6), off: off, zone: zone}
		if lo, hi := st.bounds(l(6)); lo < 0 || hi >= nsSec {
			return ret1(st, in.opaqueTime(st, zone))
		}
		for _, x := range []Lin{l(0), l(1), l(2), l(3), l(4), l(5)} {
			if lo, hi := st.bounds(x); lo < -1<<40 || hi > 1<<40 {
				return ret1(st, in.opaqueTime(st, zone))
			}
		}
		return ret1(st, t)
	}
	models["time.Unix"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		t := st.timeOfUnix(args[0].(Lin), "Local!")
		if n := st.norm(args[1].(Lin)); !n.isConst() || n.c != 0 {
			if n.isConst() && n.c > 0 && n.c < nsSec && !t.opaque {
				c := *t
				c.ns = n
				t = &c
			} else {
				t = in.opaqueTime(st, "Local!")
			}
		}
		return ret1(st, t)
	}
	models["time.FixedZone"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		in.namedZones = true
		return ret1(st, LocV{args[1].(Lin)})
	}
	models["time.LoadLocation"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		in.env(st, "time zone database", ctx)
		n := st.clone()
		return []Ret{{st: st, v: Tuple{Opaque{tag: "time.Local"}, Nil{}}}, {st: n, v: Tuple{Nil{}, in.errIface("time", n.anyStr("error text"))}}}
	}
	T := func(name string, f func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret) {
		models["(time.Time)."+name] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			t, ok := args[0].(*TimeV)
			if !ok {
				giveUp("time value %T", args[0])
			}
			return f(in, st, ctx, t, args[1:])
		}
	}
	T("UTC", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		n := *t
		n.zone = "UTC"
		if !t.opaque && t.zone != "Local!" {
			n = *t.toUTC()
			n.zone = "UTC"
		}
		return ret1(st, &n)
	})
	T("Local", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		n := *t
		if !t.opaque && t.zone != "Local!" {
			n = *t.toUTC()
		}
		n.zone = "Local!"
		return ret1(st, &n)
	})
	T("In", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		zone, off, ok := locOf(args[0])
		if !ok {
			if _, isNil := args[0].(Nil); isNil {
				return []Ret{{st: st, panic: &PanicInfo{msg: "time: missing Location in call to Time.In", pos: ctx.pos}}}
			}
			giveUp("unknown location")
		}
		n := *t
		if !t.opaque && t.zone != "Local!" {
			n = *t.toUTC()
		}
		if zone == "fixed" && !t.opaque {
			n.sod = n.sod.plus(off)
			n.off = off
		}
		n.zone = zone
		return ret1(st, &n)
	})
	T("Location", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		switch t.zone {
		case "UTC":
			return ret1(st, Opaque{tag: "time.UTC"})
		case "fixed":
			return ret1(st, LocV{t.off})
		}
		in.env(st, "local time zone", ctx)
		return ret1(st, Opaque{tag: "time.Local"})
	})
	T("Unix", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		return ret1(st, st.unixOf(t))
	})
	T("UnixMilli", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		return ret1(st, st.unixOf(t).scale(1000))
	})
	T("UnixNano", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		return ret1(st, linS(st.newInt(-inf, inf, "nanoseconds")))
	})
	T("Add", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		n := *t
		d, ok := divLin(st.norm(args[0].(Lin)), nsSec)
		if a, ns := st.norm(args[0].(Lin)), st.norm(t.ns); !ok && !t.opaque && a.isConst() && ns.isConst() {
			// part of a second
			c := ns.c + a.c
			q := c / nsSec
			if c%nsSec < 0 {
				q--
			}
			d, ok, n.ns = linC(q), true, linC(c-q*nsSec)
		}
		if t.opaque || !ok {
			return ret1(st, in.opaqueTime(st, t.zone))
		}
		n.sod = n.sod.plus(d)
		return ret1(st, &n)
	})
	T("AddDate", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		if t.zone == "local" || t.zone == "Local!" {
			in.env(st, "local time zone", ctx)
			if t.zone == "Local!" {
				return ret1(st, in.opaqueTime(st, t.zone))
			}
		}
		if t.opaque {
			return ret1(st, in.opaqueTime(st, t.zone))
		}
		var out []Ret
		for _, w := range in.civil(st, t, ctx) {
			n := *w.t
			n.y, n.m, n.d = n.y.plus(args[0].(Lin)), n.m.plus(args[1].(Lin)), n.d.plus(args[2].(Lin))
			out = append(out, Ret{st: w.st, v: &n})
		}
		return out
	})
	field := func(f func(st *State, t *TimeV) Val) func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		return func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
			var out []Ret
			for _, w := range in.civil(st, t, ctx) {
				out = append(out, Ret{st: w.st, v: f(w.st, w.t)})
			}
			return out
		}
	}
	hms := func(st *State, t *TimeV) (h, m, s Lin) {
		sod := st.norm(t.sod)
		if sod.isConst() {
			return linC(sod.c / 3600), linC(sod.c / 60 % 60), linC(sod.c % 60)
		}
		if h, m, s, ok := st.clockOf(sod); ok {
			return h, m, s
		}
		hs, ms, ss := st.newInt(0, 23, "hour"), st.newInt(0, 59, "minute"), st.newInt(0, 59, "second")
		st.assumeRange(linS(hs).scale(3600).plus(linS(ms).scale(60)).plus(linS(ss)).minus(sod), 0, 0)
		return linS(hs), linS(ms), linS(ss)
	}
	T("Year", field(func(st *State, t *TimeV) Val { return t.y }))
	T("Month", field(func(st *State, t *TimeV) Val { return t.m }))
	T("Day", field(func(st *State, t *TimeV) Val { return t.d }))
	T("Hour", field(func(st *State, t *TimeV) Val { h, _, _ := hms(st, t); return h }))
	T("Minute", field(func(st *State, t *TimeV) Val { _, m, _ := hms(st, t); return m }))
	T("Second", field(func(st *State, t *TimeV) Val { _, _, s := hms(st, t); return s }))
	T("Clock", field(func(st *State, t *TimeV) Val { h, m, s := hms(st, t); return Tuple{h, m, s} }))
	T("Date", field(func(st *State, t *TimeV) Val { return Tuple{t.y, t.m, t.d} }))
	T("Nanosecond", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		if t.opaque {
			return ret1(st, linS(st.newInt(0, nsSec-1, "ns")))
		}
		return ret1(st, t.ns)
	})
	T("Format", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		l, ok := st.constStr(strOf(args[0]))
		if t.zone == "Local!" {
			in.env(st, "local time zone", ctx)
			return ret1(st, st.anyStr("local time"))
		}
		if !ok {
			return ret1(st, st.anyStr("formatted time"))
		}
		var out []Ret
		for _, w := range st.formatTime(t, l) {
			out = append(out, Ret{st: w.st, v: w.s})
		}
		return out
	})
	T("String", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		return ret1(st, st.anyStr("time"))
	})
	cmp := func(f func(c int) Val) func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		return func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
			u, ok := args[0].(*TimeV)
			if !ok {
				giveUp("time value %T", args[0])
			}
			var out []Ret
			for _, w := range st.cmpTime(t, u) {
				out = append(out, Ret{st: w.st, v: f(w.c)})
			}
			return out
		}
	}
	T("Before", cmp(func(c int) Val { return c < 0 }))
	T("After", cmp(func(c int) Val { return c > 0 }))
	T("Equal", cmp(func(c int) Val { return c == 0 }))
	T("Compare", cmp(func(c int) Val { return linC(int64(c)) }))
	T("IsZero", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		var out []Ret
		for _, w := range st.cmpTime(t, zeroTime()) {
			out = append(out, Ret{st: w.st, v: w.c == 0})
		}
		return out
	})
	T("Sub", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		u, ok := args[0].(*TimeV)
		if !ok {
			giveUp("time value %T", args[0])
		}
		// the sign of a difference is exact (it saturates), its amount is not
		var out []Ret
		for _, w := range st.cmpTime(t, u) {
			switch {
			case w.c < 0:
				out = append(out, Ret{st: w.st, v: linS(w.st.newInt(-inf, -1, "duration"))})
			case w.c > 0:
				out = append(out, Ret{st: w.st, v: linS(w.st.newInt(1, inf, "duration"))})
			default:
				out = append(out, Ret{st: w.st, v: linC(0)})
			}
		}
		return out
	})
	T("Zone", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		switch t.zone {
		case "UTC":
			return ret1(st, Tuple{lit("UTC"), linC(0)})
		case "fixed":
			if !t.opaque {
				if in.namedZones {
					return ret1(st, Tuple{st.anyStr("zone"), t.off})
				}
				return ret1(st, Tuple{lit(""), t.off}) // a shift that was read from a text
			}
		case "local", "Local!":
			in.env(st, "local time zone", ctx)
		}
		return ret1(st, Tuple{st.anyStr("zone"), linS(st.newInt(-86400, 86400, "offset"))})
	})
	// Truncate counts from the zero time, a midnight in UTC: whole parts of a day divide the seconds of the day
	T("Truncate", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		d := st.norm(args[0].(Lin))
		if d.isConst() && d.c <= 0 {
			return ret1(st, t)
		}
		if !d.isConst() || t.opaque || t.zone == "local" || t.zone == "Local!" {
			return ret1(st, in.opaqueTime(st, t.zone))
		}
		if nsSec%d.c == 0 {
			if n := st.norm(t.ns); n.isConst() {
				c := *t
				c.ns = linC(n.c / d.c * d.c)
				return ret1(st, &c)
			}
		}
		if d.c%nsSec != 0 || 86400%(d.c/nsSec) != 0 {
			return ret1(st, in.opaqueTime(st, t.zone))
		}
		sec := d.c / nsSec
		var out []Ret
		for _, w := range st.utc(t) {
			n := *w.t
			n.ns = linC(0)
			sod := w.st.norm(n.sod)
			h, m, _, ok := w.st.clockOf(sod)
			switch {
			case sod.isConst():
				n.sod = linC(sod.c / sec * sec)
			case sec == 86400:
				n.sod = linC(0)
			case ok && sec == 3600:
				n.sod = h.scale(3600)
			case ok && sec == 60:
				n.sod = h.scale(3600).plus(m.scale(60))
			case sec == 1:
			default:
				q, r := w.st.newInt(0, 86400/sec-1, "part of the day"), w.st.newInt(0, sec-1, "rest")
				if !w.st.assumeRange(linS(q).scale(sec).plus(linS(r)).minus(sod), 0, 0) {
					continue
				}
				n.sod = linS(q).scale(sec)
			}
			if t.zone == "fixed" {
				n.zone, n.off, n.sod = "fixed", t.off, n.sod.plus(t.off)
			}
			out = append(out, Ret{st: w.st, v: &n})
		}
		return out
	})
	T("Weekday", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		return ret1(st, linS(st.newInt(0, 6, "weekday")))
	})
	T("YearDay", func(in *Interp, st *State, ctx *callCtx, t *TimeV, args []Val) []Ret {
		var out []Ret
		for _, w := range in.civil(st, t, ctx) {
			ms, ok := w.st.splitValues(w.t.m, 12)
			if !ok {
				giveUp("month is not bounded")
			}
			for _, m := range ms {
				for _, b := range m.leapFork(w.t.y) {
					n := int64(0)
					y := int64(2001)
					if b.b {
						y = 2000
					}
					for k := int64(1); k < m.norm(w.t.m).c; k++ {
						n += monthLen(y, k)
					}
					out = append(out, Ret{st: b.st, v: w.t.d.plusC(n)})
				}
			}
		}
		return out
	})
	models["(time.Duration).Seconds"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if d, ok := divLin(st.norm(args[0].(Lin)), nsSec); ok {
			return ret1(st, floatOf(d))
		}
		return ret1(st, Float{})
	}
	models["(time.Month).String"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		names := []string{"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
		var out []Ret
		for _, w := range in.constInts(st, args[0].(Lin), 13) {
			if w.ok && w.i >= 1 && w.i <= 12 {
				out = append(out, Ret{st: w.st, v: lit(names[w.i-1])})
			} else {
				out = append(out, Ret{st: w.st, v: w.st.anyStr("month")})
			}
		}
		return out
	}

	// math/big
	bigOf := func(in *Interp, st *State, v Val, ctx *callCtx) (BigV, *PanicInfo) {
		switch p := v.(type) {
		case Ptr:
			if b, ok := in.load(st, p).(BigV); ok {
				return b, nil
			}
			return BigV{}, nil
		case Nil:
			return BigV{}, &PanicInfo{msg: "nil pointer dereference (big.Float)", pos: ctx.pos}
		}
		return BigV{}, nil
	}
	newBig := func(in *Interp, st *State, b BigV) Val {
		o := in.newObj(st, b, nil)
		return Ptr{obj: o}
	}
	bigWorlds := func(in *Interp, st *State, s Str) []bigWorld { return in.bigWorlds(st, s) }
	models["math/big.ParseFloat"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if b := st.norm(args[1].(Lin)); !b.isConst() || b.c != 10 && b.c != 0 {
			n := st.clone()
			return []Ret{{st: st, v: Tuple{newBig(in, st, BigV{}), linC(10), Nil{}}}, {st: n, v: Tuple{Nil{}, linC(0), in.errIface("math/big", n.anyStr("error text"))}}}
		}
		prec := st.norm(args[2].(Lin))
		var out []Ret
		for _, w := range bigWorlds(in, st, strOf(args[0])) {
			if w.err {
				out = append(out, Ret{st: w.st, v: Tuple{Nil{}, linC(0), in.errIface("math/big", w.st.anyStr("error text"))}})
				continue
			}
			for _, x := range rounded(w.st, w.b, prec) {
				out = append(out, Ret{st: x.st, v: Tuple{newBig(in, x.st, x.b), linC(10), Nil{}}})
			}
		}
		return out
	}
	models["(*math/big.Float).SetString"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		p, ok := args[0].(Ptr)
		if !ok {
			giveUp("SetString on %T", args[0])
		}
		var out []Ret
		for _, w := range bigWorlds(in, st, strOf(args[1])) {
			if w.err {
				out = append(out, Ret{st: w.st, v: Tuple{Nil{}, false}})
				continue
			}
			in.store(w.st, p, w.b)
			out = append(out, Ret{st: w.st, v: Tuple{p, true}})
		}
		return out
	}
	models["math/big.NewFloat"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if f, ok := args[0].(Float); ok {
			return ret1(st, newBig(in, st, f.BigV))
		}
		return ret1(st, newBig(in, st, BigV{}))
	}
	setInt := func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		p, ok := args[0].(Ptr)
		if !ok {
			giveUp("big.Float method on %T", args[0])
		}
		switch v := args[1].(type) {
		case Lin:
			in.store(st, p, BigV{known: true, lin: v})
		case Float:
			in.store(st, p, v.BigV)
		case Ptr:
			b, _ := bigOf(in, st, v, ctx)
			in.store(st, p, b)
		default:
			in.store(st, p, BigV{})
		}
		return ret1(st, p)
	}
	for _, n := range []string{"SetInt64", "SetUint64", "SetFloat64", "Set"} {
		models["(*math/big.Float)."+n] = setInt
	}
	models["(*math/big.Float).SetPrec"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if n := st.norm(args[1].(Lin)); n.isConst() && n.c >= 53 {
			return ret1(st, args[0])
		}
		in.store(st, args[0].(Ptr), BigV{})
		return ret1(st, args[0])
	}
	un := func(f func(st *State, b BigV) []struct {
		st *State
		b  BigV
	}) modelFn {
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			p, ok := args[0].(Ptr)
			if !ok {
				giveUp("big.Float method on %T", args[0])
			}
			b, pn := bigOf(in, st, args[1], ctx)
			if pn != nil {
				return []Ret{{st: st, panic: pn}}
			}
			var out []Ret
			for _, w := range f(st, b) {
				in.store(w.st, p, w.b)
				out = append(out, Ret{st: w.st, v: p})
			}
			return out
		}
	}
	type bs = struct {
		st *State
		b  BigV
	}
	models["(*math/big.Float).Abs"] = un(func(st *State, b BigV) []bs {
		if b.huge != 0 {
			return []bs{{st, BigV{known: true, huge: 1}}}
		}
		if !b.known {
			if b.trunc == nil {
				return []bs{{st, BigV{}}}
			}
			var out []bs
			for _, w := range st.forkCmp(*b.trunc, opLT) {
				if w.b {
					n := b.trunc.scale(-1)
					out = append(out, bs{w.st, BigV{trunc: &n}})
				} else {
					out = append(out, bs{w.st, b})
				}
			}
			return out
		}
		var out []bs
		for _, w := range st.forkCmp(b.lin, opLT) {
			if w.b {
				out = append(out, bs{w.st, BigV{known: true, lin: b.lin.scale(-1)}})
			} else {
				out = append(out, bs{w.st, b})
			}
		}
		return out
	})
	models["(*math/big.Float).Neg"] = un(func(st *State, b BigV) []bs {
		if b.huge != 0 {
			return []bs{{st, BigV{known: true, huge: -b.huge}}}
		}
		if !b.known {
			if b.trunc == nil {
				return []bs{{st, BigV{}}}
			}
			n := b.trunc.scale(-1)
			return []bs{{st, BigV{trunc: &n}}}
		}
		return []bs{{st, BigV{known: true, lin: b.lin.scale(-1)}}}
	})
	models["(*math/big.Float).Cmp"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		a, p1 := bigOf(in, st, args[0], ctx)
		b, p2 := bigOf(in, st, args[1], ctx)
		if p1 != nil || p2 != nil {
			return []Ret{{st: st, panic: &PanicInfo{msg: "nil pointer dereference (big.Float)", pos: ctx.pos}}}
		}
		var out []Ret
		for _, w := range cmpBig(in, st, a, b) {
			out = append(out, Ret{st: w.st, v: linC(int64(w.c))})
		}
		return out
	}
	models["(*math/big.Float).Sign"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		a, _ := bigOf(in, st, args[0], ctx)
		var out []Ret
		for _, w := range cmpBig(in, st, a, BigV{known: true}) {
			out = append(out, Ret{st: w.st, v: linC(int64(w.c))})
		}
		return out
	}
	models["(*math/big.Float).IsInt"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		a, _ := bigOf(in, st, args[0], ctx)
		if a.known {
			return ret1(st, true)
		}
		return in.unkBool(st)
	}
	models["(*math/big.Float).Int64"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		a, p := bigOf(in, st, args[0], ctx)
		if p != nil {
			return []Ret{{st: st, panic: p}}
		}
		acc := linC(0)
		if a.known && a.huge == 0 {
			return ret1(st, Tuple{a.lin, acc})
		}
		if a.trunc != nil {
			return ret1(st, Tuple{*a.trunc, linS(st.newInt(-1, 1, "accuracy"))})
		}
		return ret1(st, Tuple{linS(st.newInt(-inf, inf, "wrapped")), linS(st.newInt(-1, 1, "accuracy"))})
	}
	// integers: the same values without a fraction
	models["(*math/big.Float).Int"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		a, p := bigOf(in, st, args[0], ctx)
		if p != nil {
			return []Ret{{st: st, panic: p}}
		}
		if !a.known && a.trunc != nil {
			a = BigV{known: true, lin: *a.trunc}
		}
		z, ok := args[1].(Ptr)
		if ok {
			in.store(st, z, a)
			return ret1(st, Tuple{z, linS(st.newInt(-1, 1, "accuracy"))})
		}
		return ret1(st, Tuple{newBig(in, st, a), linS(st.newInt(-1, 1, "accuracy"))})
	}
	models["math/big.NewInt"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		return ret1(st, newBig(in, st, BigV{known: true, lin: args[0].(Lin)}))
	}
	models["(*math/big.Int).Int64"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		a, p := bigOf(in, st, args[0], ctx)
		if p != nil {
			return []Ret{{st: st, panic: p}}
		}
		if a.known && a.huge == 0 {
			return ret1(st, a.lin)
		}
		// the low bits of a large number: anything
		return ret1(st, linS(st.newInt(-inf, inf, "wrapped")))
	}
	models["(*math/big.Int).IsInt64"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		a, _ := bigOf(in, st, args[0], ctx)
		if a.known && a.huge == 0 {
			if lo, hi := st.bounds(a.lin); lo > -bigLimit && hi < bigLimit {
				return ret1(st, true)
			}
		}
		return in.unkBool(st)
	}
	for _, n := range []string{"Abs", "Neg"} {
		models["(*math/big.Int)."+n] = models["(*math/big.Float)."+n]
	}
	models["(*math/big.Int).Set"] = setInt
	models["(*math/big.Int).SetInt64"] = setInt
	models["(*math/big.Int).Cmp"] = models["(*math/big.Float).Cmp"]
	models["(*math/big.Int).Sign"] = models["(*math/big.Float).Sign"]
	models["(*math/big.Float).Float64"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		a, p := bigOf(in, st, args[0], ctx)
		if p != nil {
			return []Ret{{st: st, panic: p}}
		}
		if a.known && a.huge == 0 {
			return ret1(st, Tuple{floatOf(a.lin), linC(0)})
		}
		return ret1(st, Tuple{Float{a}, linS(st.newInt(-1, 1, "accuracy"))})
	}
	_ = types.Typ
}

// bigLimit: numbers of at least this magnitude are only known by their sign.
const bigLimit = int64(1_000_000_000_000_000) - 1_000_000

// bigNumber evaluates a decimal number with an optional exponent.
func (in *Interp) bigNumber(st *State, s Str) []struct {
	st  *State
	b   BigV
	err bool
} {
	type bw = struct {
		st  *State
		b   BigV
		err bool
	}
	var out []bw
	// values too large for exact treatment, whatever their length: 16 or more significant digits of
	// integer part, or any non-zero mantissa with an exponent of 17 or more
	const big = `0*[1-9][0-9]{15,}(?:[eE][+]?0*[0-9]{1,9})?|0*[1-9][0-9]*[eE][+]?0*(?:[2-9][0-9]|1[7-9]|[1-9][0-9]{2,8})`
	hugePos := patDFA(`[+]?(?:` + big + `)`)
	hugeNeg := patDFA(`[-](?:` + big + `)`)
	// an exponent this long may be out of range, which is an error
	for _, e := range st.inLang(s, patDFA(`(?s:.*)[eE][+-]?0*[1-9][0-9]{9}(?s:.*)`)) {
		if e.b {
			n := e.st.clone()
			out = append(out, bw{n, BigV{}, true})
			for _, p := range e.st.inLang(s, patDFA(`[+]?0*[1-9][0-9]*[eE][+]?[0-9]+`)) {
				if p.b {
					out = append(out, bw{p.st, BigV{known: true, huge: 1}, false})
					continue
				}
				for _, m := range p.st.inLang(s, patDFA(`-0*[1-9][0-9]*[eE][+]?[0-9]+`)) {
					if m.b {
						out = append(out, bw{m.st, BigV{known: true, huge: -1}, false})
					} else {
						out = append(out, bw{m.st, BigV{}, false})
					}
				}
			}
			continue
		}
		out = append(out, in.bigNumber1(e.st, s, hugePos, hugeNeg)...)
	}
	return out
}

func (in *Interp) bigNumber1(st *State, s Str, hugePos, hugeNeg *DFA) []struct {
	st  *State
	b   BigV
	err bool
} {
	type bw = struct {
		st  *State
		b   BigV
		err bool
	}
	var out []bw
	for _, p := range st.inLang(s, hugePos) {
		if p.b {
			out = append(out, bw{p.st, BigV{known: true, huge: 1}, false})
			continue
		}
		for _, n := range p.st.inLang(s, hugeNeg) {
			if n.b {
				out = append(out, bw{n.st, BigV{known: true, huge: -1}, false})
				continue
			}
			for _, l := range n.st.lay(s) {
				if !l.cells {
					out = append(out, bw{l.st, BigV{}, false})
					continue
				}
				out = append(out, in.bigCells(l.st, l.it)...)
			}
		}
	}
	return out
}

func (in *Interp) bigCells(st *State, it []Item) []struct {
	st  *State
	b   BigV
	err bool
} {
	type bw = struct {
		st  *State
		b   BigV
		err bool
	}
	var out []bw
	for _, e := range st.findFromSet(it, csOf("eE")) {
		mant := it
		exp := []Item(nil)
		if e.i >= 0 {
			mant, exp = it[:e.i], it[e.i+1:]
		}
		for _, m := range e.st.parseInt(Str{mant}, 64, false) {
			if m.err {
				out = append(out, bw{m.st, BigV{}, false})
				continue
			}
			if exp == nil {
				out = append(out, bw{m.st, BigV{known: true, lin: m.lin}, false})
				continue
			}
			for _, x := range m.st.parseInt(Str{exp}, 64, false) {
				if x.err {
					out = append(out, bw{x.st, BigV{}, false})
					continue
				}
				for _, c := range in.constInts(x.st, x.lin, 20) {
					if !c.ok || c.i < 0 || c.i > 17 {
						// the mantissa is zero, or the exponent negative or unbounded
						for _, z := range c.st.forkCmp(m.lin, opEQ) {
							if z.b {
								out = append(out, bw{z.st, BigV{known: true}, false})
							} else {
								out = append(out, bw{z.st, BigV{}, false})
							}
						}
						continue
					}
					lo, hi := c.st.bounds(m.lin)
					p := pow10(int(c.i))
					if satMul(lo, p) <= -bigLimit || satMul(hi, p) >= bigLimit {
						// split by magnitude
						lim := bigLimit/p - 1
						for _, g := range c.st.fork3Range(m.lin, -lim, lim) {
							switch g.c {
							case 0:
								out = append(out, bw{g.st, BigV{known: true, lin: m.lin.scale(p)}, false})
							case 1:
								out = append(out, bw{g.st, BigV{known: true, huge: 1}, false})
							default:
								out = append(out, bw{g.st, BigV{known: true, huge: -1}, false})
							}
						}
						continue
					}
					out = append(out, bw{c.st, BigV{known: true, lin: m.lin.scale(p)}, false})
				}
			}
		}
	}
	return out
}

// fork3Range: below lo (-1), within (0) or above hi (1).
func (st *State) fork3Range(l Lin, lo, hi int64) []cmpWorld {
	var out []cmpWorld
	for _, a := range st.forkCmp(l.plusC(-lo), opLT) {
		if a.b {
			out = append(out, cmpWorld{a.st, -1})
			continue
		}
		for _, b := range a.st.forkCmp(l.plusC(-hi), opGT) {
			if b.b {
				out = append(out, cmpWorld{b.st, 1})
			} else {
				out = append(out, cmpWorld{b.st, 0})
			}
		}
	}
	return out
}

// findFromSet: position of the first character in a set.
func (st *State) findFromSet(it []Item, cs Charset) []idxWorld {
	var out []idxWorld
	cur := []*State{st}
	for i := range it {
		var nx []*State
		for _, c := range cur {
			for _, b := range c.cellIn(it[i], cs) {
				if b.b {
					out = append(out, idxWorld{b.st, i})
				} else {
					nx = append(nx, b.st)
				}
			}
		}
		cur = nx
	}
	for _, c := range cur {
		out = append(out, idxWorld{c, -1})
	}
	return out
}

type bigWorld = struct {
	st  *State
	b   BigV
	err bool
}

// bigWorlds evaluates the text of a number.
func (in *Interp) bigWorlds(st *State, s Str) []bigWorld {
	var out []bigWorld
	valid := patDFA(`[+-]?([0-9]+)([eE][+-]?[0-9]+)?`)
	for _, w := range st.inLang(s, valid) {
		if !w.b {
			// other spellings (fractions, Inf, ...): anything, or an error
			w.st.vagueAt("the value of a number that is not a decimal integer")
			n := w.st.clone()
			out = append(out, bigWorld{w.st, BigV{}, false}, bigWorld{n, BigV{}, true})
			continue
		}
		out = append(out, in.bigNumber(w.st, s)...)
	}
	for i := range out {
		if !out[i].err && !out[i].b.known {
			t := linS(out[i].st.newInt(-inf, inf, "number"))
			out[i].b.trunc = &t
		}
	}
	return out
}

// rounded: a number kept to a precision in bits (0: the default of 64).
func rounded(st *State, b BigV, prec Lin) []bigWorld {
	prec = st.norm(prec)
	if !prec.isConst() || prec.c < 0 {
		return []bigWorld{{st: st}}
	}
	if prec.c == 0 || prec.c >= 53 || !b.known {
		return []bigWorld{{st: st, b: b}}
	}
	lim := int64(1) << uint(prec.c)
	if b.huge != 0 {
		return []bigWorld{{st: st, b: b}}
	}
	var out []bigWorld
	for _, r := range st.fork3Range(b.lin, -lim, lim) {
		if r.c == 0 {
			out = append(out, bigWorld{st: r.st, b: b})
			continue
		}
		// the nearest number that is not representable
		for _, n := range r.st.forkCmp(b.lin.plusC(-int64(r.c)*(lim+1)), opEQ) {
			v := n.st.norm(b.lin)
			if !v.isConst() {
				t := linS(n.st.newInt(-inf, inf, "number"))
				out = append(out, bigWorld{st: n.st, b: BigV{trunc: &t}})
				continue
			}
			x, _ := new(big.Float).SetPrec(uint(prec.c)).SetInt64(v.c).Int64()
			out = append(out, bigWorld{st: n.st, b: BigV{known: true, lin: linC(x)}})
		}
	}
	return out
}

func cmpBig(in *Interp, st *State, a, b BigV) []cmpWorld {
	switch {
	case a.huge != 0 && b.huge != 0:
		if a.huge != b.huge {
			return []cmpWorld{{st, int(a.huge)}}
		}
	case a.huge != 0 && b.known:
		if lo, hi := st.bounds(b.lin); lo > -bigLimit && hi < bigLimit {
			return []cmpWorld{{st, int(a.huge)}}
		}
	case b.huge != 0 && a.known:
		if lo, hi := st.bounds(a.lin); lo > -bigLimit && hi < bigLimit {
			return []cmpWorld{{st, -int(b.huge)}}
		}
	case a.known && b.known:
		return st.fork3(a.lin.minus(b.lin))
	case a.trunc != nil && b.known && b.huge == 0 && st.norm(b.lin).isConst(), b.trunc != nil && a.known && a.huge == 0 && st.norm(a.lin).isConst():
		// x < c gives trunc(x) <= c, x > c gives trunc(x) >= c, x = c gives trunc(x) = c
		sign := 1
		t, c := a.trunc, b.lin
		if a.trunc == nil {
			t, c, sign = b.trunc, a.lin, -1
		}
		var out []cmpWorld
		d := t.minus(st.norm(c))
		for _, v := range []struct {
			r  int
			op cmpOp
		}{{-1, opLE}, {0, opEQ}, {1, opGE}} {
			for _, w := range st.clone().assume(d, v.op) {
				out = append(out, cmpWorld{w, v.r * sign})
			}
		}
		return out
	}
	st.vagueAt("a comparison of numbers that are not known")
	n, m := st.clone(), st.clone()
	return []cmpWorld{{st, -1}, {n, 0}, {m, 1}}
}

// clockOf reads hours, minutes and seconds off a number of seconds that was put together from them, or
// that was taken apart before.
func (st *State) clockOf(sod Lin) (h, m, s Lin, ok bool) {
	for _, t := range sod.t {
		x := Lin{t: []Term{t}}
		switch {
		case t.k%3600 == 0:
			x.t = []Term{{s: t.s, k: t.k / 3600}}
			h = h.plus(x)
		case t.k%60 == 0:
			x.t = []Term{{s: t.s, k: t.k / 60}}
			m = m.plus(x)
		default:
			s = s.plus(x)
		}
	}
	if sod.c >= 0 {
		h, m, s = h.plusC(sod.c/3600), m.plusC(sod.c/60%60), s.plusC(sod.c%60)
		h0, h1 := st.bounds(h)
		m0, m1 := st.bounds(m)
		s0, s1 := st.bounds(s)
		if h0 >= 0 && h1 <= 23 && m0 >= 0 && m1 <= 59 && s0 >= 0 && s1 <= 59 {
			return h, m, s, true
		}
	}
	for _, f := range st.facts {
		if f.lo != f.hi {
			continue
		}
		for _, k := range []int64{1, -1} {
			q, fine := Lin{t: f.t}.plusC(-f.lo).scale(k).add(sod, 1)
			if !fine || q.c != 0 || len(q.t) != 3 {
				continue
			}
			var got [3]bool
			for _, t := range q.t {
				switch n := st.syms[t.s].name; {
				case t.k == 3600 && n == "hour":
					h, got[0] = linS(t.s), true
				case t.k == 60 && n == "minute":
					m, got[1] = linS(t.s), true
				case t.k == 1 && n == "second":
					s, got[2] = linS(t.s), true
				}
			}
			if got == [3]bool{true, true, true} {
				return h, m, s, true
			}
		}
	}
	return Lin{}, Lin{}, Lin{}, false
}
