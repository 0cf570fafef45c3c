package main

// Models of fmt, regexp, encoding/json, io, os, flag, log, sync.

import (
	"go/types"
	"strings"
)

// fmtVal renders one argument with a verb.
func (in *Interp) fmtVal(st *State, a Val, verb byte, flags string, width int, hasW bool, ctx *callCtx) []strWorld {
	padS := func(ws []strWorld) []strWorld {
		if !hasW {
			return ws
		}
		for i, w := range ws {
			l := w.st.norm(w.st.strLen(w.s))
			if !l.isConst() {
				ws[i].s = w.st.anyStr("padded")
				continue
			}
			if n := width - int(l.c); n > 0 {
				pad := lit(strings.Repeat(" ", n)).it
				if strings.Contains(flags, "0") && !strings.Contains(flags, "-") {
					pad = lit(strings.Repeat("0", n)).it
				}
				if strings.Contains(flags, "-") {
					ws[i].s = Str{append(append([]Item(nil), w.s.it...), pad...)}
				} else {
					ws[i].s = Str{append(append([]Item(nil), pad...), w.s.it...)}
				}
			}
		}
		return ws
	}
	text := func(s Str) []strWorld { return padS([]strWorld{{st, s}}) }
	v := a
	var t types.Type
	if i, ok := a.(Iface); ok {
		v, t = i.v, i.t
	}
	if verb == 'T' {
		if t != nil {
			return text(lit(types.TypeString(t, func(p *types.Package) string { return p.Name() })))
		}
		return text(lit("<nil>"))
	}
	if _, isNil := a.(Nil); isNil {
		return text(st.anyStr("nil"))
	}
	if verb == 's' || verb == 'v' || verb == 'q' || verb == 'w' {
		if e, ok := v.(*ErrV); ok {
			return text(e.msg)
		}
		if t != nil && verb != 'w' {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && in.w.isModule(n.Obj().Pkg()) {
				for _, mn := range []string{"Error", "String"} {
					if fn := in.w.prog.LookupMethod(t, n.Obj().Pkg(), mn); fn != nil && fn.Signature.Params().Len() == 0 {
						var out []strWorld
						for _, r := range in.callFn(st, fn, []Val{v}, nil, &callCtx{fn: fn, rt: types.Typ[types.String]}) {
							if r.panic != nil { // fmt recovers panics of String methods
								out = append(out, strWorld{r.st, r.st.anyStr("panic")})
							} else {
								out = append(out, strWorld{r.st, strOf(r.v)})
							}
						}
						return padS(out)
					}
				}
			}
		}
	}
	switch x := v.(type) {
	case Str:
		switch verb {
		case 's', 'v':
			if strings.Contains(flags, "#") {
				break
			}
			return text(x)
		case 'q':
			if c, ok := st.constStr(x); ok && !strings.ContainsAny(c, "\"\\\n") {
				return text(lit(`"` + c + `"`))
			}
		}
		return text(st.anyStr("formatted"))
	case BytesV:
		if verb == 's' {
			return text(x.s)
		}
		return text(st.anyStr("formatted"))
	case Lin:
		switch verb {
		case 'd', 'v':
			pad := byte(' ')
			if strings.Contains(flags, "0") && !strings.Contains(flags, "-") {
				pad = '0'
			}
			if !hasW {
				width = 0
			}
			if strings.Contains(flags, "-") && hasW {
				var out []strWorld
				for _, w := range st.render(x, 0, ' ', strings.Contains(flags, "+")) {
					st = w.st
					out = append(out, text(w.s)...)
				}
				return out
			}
			return st.render(x, width, pad, strings.Contains(flags, "+"))
		case 'c':
			if s, ok := in.runeStr(st, x); ok {
				return text(s)
			}
		}
		return text(st.anyStr("formatted"))
	case bool:
		if x {
			return text(lit("true"))
		}
		return text(lit("false"))
	}
	return text(st.anyStr("formatted"))
}

// format models fmt.Sprintf.
func (in *Interp) format(st *State, f Str, args []Val, ctx *callCtx) []strWorld {
	c, ok := st.constStr(f)
	if !ok {
		return []strWorld{{st, st.anyStr("formatted")}}
	}
	cur := []strWorld{{st, Str{}}}
	add := func(it []Item) {
		for i := range cur {
			cur[i].s = Str{append(append([]Item(nil), cur[i].s.it...), it...)}
		}
	}
	ai := 0
	for i := 0; i < len(c); {
		if c[i] != '%' {
			j := i
			for j < len(c) && c[j] != '%' {
				j++
			}
			add(lit(c[i:j]).it)
			i = j
			continue
		}
		i++
		flags := ""
		for i < len(c) && strings.IndexByte("+-# 0", c[i]) >= 0 {
			flags += string(c[i])
			i++
		}
		width, hasW := 0, false
		if i < len(c) && c[i] == '*' {
			i++
			if ai < len(args) {
				if w, ok := args[ai].(Iface); ok {
					if l, ok := w.v.(Lin); ok {
						if n := st.norm(l); n.isConst() {
							width, hasW = int(n.c), true
						} else {
							return []strWorld{{st, st.anyStr("formatted")}}
						}
					}
				}
				ai++
			}
		}
		for i < len(c) && c[i] >= '0' && c[i] <= '9' {
			width, hasW = width*10+int(c[i]-'0'), true
			i++
		}
		if i < len(c) && (c[i] == '.' || c[i] == '[') {
			return []strWorld{{st, st.anyStr("formatted")}}
		}
		if i >= len(c) {
			add(lit("%!(NOVERB)").it)
			break
		}
		verb := c[i]
		i++
		if verb == '%' {
			add(lit("%").it)
			continue
		}
		if ai >= len(args) {
			add(lit("%!" + string(verb) + "(MISSING)").it)
			continue
		}
		a := args[ai]
		ai++
		var nx []strWorld
		for _, w := range cur {
			for _, r := range in.fmtVal(w.st, a, verb, flags, width, hasW, ctx) {
				nx = append(nx, strWorld{r.st, Str{append(append([]Item(nil), w.s.it...), r.s.it...)}})
			}
		}
		cur = nx
	}
	if ai < len(args) {
		for i := range cur {
			cur[i].s = Str{append(append([]Item(nil), cur[i].s.it...), cur[i].st.anyStr("extra").it...)}
		}
	}
	return cur
}

// formatLn models fmt.Sprint and fmt.Sprintln.
func (in *Interp) formatLn(st *State, args []Val, ln bool, ctx *callCtx) []strWorld {
	cur := []strWorld{{st, Str{}}}
	isS := func(a Val) bool {
		if i, ok := a.(Iface); ok {
			_, s := i.v.(Str)
			return s
		}
		return false
	}
	for k, a := range args {
		var nx []strWorld
		for _, w := range cur {
			pre := append([]Item(nil), w.s.it...)
			if k > 0 && (ln || !isS(a) && !isS(args[k-1])) {
				pre = append(pre, Item{k: iLit, b: ' '})
			}
			for _, r := range in.fmtVal(w.st, a, 'v', "", 0, false, ctx) {
				nx = append(nx, strWorld{r.st, Str{append(append([]Item(nil), pre...), r.s.it...)}})
			}
		}
		cur = nx
	}
	if ln {
		for i := range cur {
			cur[i].s = Str{append(append([]Item(nil), cur[i].s.it...), Item{k: iLit, b: '\n'})}
		}
	}
	return cur
}

func (in *Interp) varargs(st *State, v Val) []Val {
	switch v.(type) {
	case Slice, Nil:
		return in.elems(st, v)
	}
	return []Val{Opaque{tag: "arguments"}}
}

// writeVal writes a string to an io.Writer value.
func (in *Interp) writeVal(st *State, w Val, s Str, ctx *callCtx) []*State {
	if i, ok := w.(Iface); ok {
		w = i.v
	}
	switch x := w.(type) {
	case Opaque:
		in.event(st, "write "+x.tag, ctx.pos, s)
		return []*State{st}
	case Ptr:
		a, ok := in.load(st, x).(Agg)
		if ok && len(a.f) >= 1 {
			if c, isS := a.f[0].(Str); isS {
				n := Agg{append([]Val(nil), a.f...)}
				n.f[0] = Str{append(c.it[:len(c.it):len(c.it)], s.it...)}
				in.store(st, x, n)
				return []*State{st}
			}
		}
	}
	in.event(st, "write unknown", ctx.pos, s)
	return []*State{st}
}

type jsonTag struct {
	v      Val
	indent bool
}

func (in *Interp) jsonText(st *State, v Val, indent bool) Str {
	s := st.newSym(&SymInfo{kind: kOpq, lang: dfaAny, name: "JSON", tag: &jsonTag{v, indent}})
	return Str{[]Item{{k: iOpq, s: s}}}
}

func exitRet(st *State, what string, ctx *callCtx) []Ret {
	p := &PanicInfo{msg: "process exit (" + what + ")", pos: ctx.pos, exit: true}
	if ctx.site != nil {
		p.fn = ctx.site.Parent().String()
	}
	return []Ret{{st: st, panic: p}}
}

func constOr(st *State, v Val) string {
	s, _ := st.constStr(strOf(v))
	return s
}

func init() {
	models["fmt.Sprintf"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		var out []Ret
		for _, w := range in.format(st, strOf(args[0]), in.varargs(st, args[1]), ctx) {
			out = append(out, Ret{st: w.st, v: w.s})
		}
		return out
	}
	models["fmt.Errorf"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		va := in.varargs(st, args[1])
		var wrapped []Val
		if f, ok := st.constStr(strOf(args[0])); ok {
			k := 0
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
					i++
				}
				if i >= len(f) || f[i] == '%' {
					continue
				}
				if f[i] == 'w' && k < len(va) {
					if _, isNil := va[k].(Nil); !isNil {
						wrapped = append(wrapped, va[k])
					}
				}
				k++
			}
		}
		if in.stubs != nil { // the text matters
			var out []Ret
			for _, w := range in.format(st, Str{lit(strings.ReplaceAll(constOr(st, args[0]), "%w", "%v")).it}, va, ctx) {
				out = append(out, Ret{st: w.st, v: in.errIface("fmt.Errorf", w.s, wrapped...)})
			}
			return out
		}
		return ret1(st, in.errIface("fmt.Errorf", st.anyStr("error text"), wrapped...))
	}
	sprint := func(ln bool) modelFn {
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			var out []Ret
			for _, w := range in.formatLn(st, in.varargs(st, args[0]), ln, ctx) {
				out = append(out, Ret{st: w.st, v: w.s})
			}
			return out
		}
	}
	models["fmt.Sprint"] = sprint(false)
	models["fmt.Sprintln"] = sprint(true)
	wres := func(in *Interp, st *State, ctx *callCtx) Val {
		return Tuple{linS(st.newInt(0, inf, "written")), Nil{}}
	}
	printTo := func(kind string, dest func(args []Val) (Val, []Val)) modelFn {
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			w, rest := dest(args)
			var sw []strWorld
			switch kind {
			case "f":
				sw = in.format(st, strOf(rest[0]), in.varargs(st, rest[1]), ctx)
			case "ln":
				sw = in.formatLn(st, in.varargs(st, rest[0]), true, ctx)
			default:
				sw = in.formatLn(st, in.varargs(st, rest[0]), false, ctx)
			}
			var out []Ret
			for _, s := range sw {
				for _, z := range in.writeVal(s.st, w, s.s, ctx) {
					out = append(out, Ret{st: z, v: wres(in, z, ctx)})
				}
			}
			return out
		}
	}
	stdout := func(args []Val) (Val, []Val) { return Opaque{tag: "os.Stdout"}, args }
	first := func(args []Val) (Val, []Val) { return args[0], args[1:] }
	models["fmt.Printf"] = printTo("f", stdout)
	models["fmt.Println"] = printTo("ln", stdout)
	models["fmt.Print"] = printTo("", stdout)
	models["fmt.Fprintf"] = printTo("f", first)
	models["fmt.Fprintln"] = printTo("ln", first)
	models["fmt.Fprint"] = printTo("", first)
	stderr := func(args []Val) (Val, []Val) { return Opaque{tag: "os.Stderr"}, args }
	logm := func(kind string, fatal int) modelFn {
		p := printTo(kind, stderr)
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			var out []Ret
			for _, r := range p(in, st, ctx, args) {
				in.event(r.st, "log", ctx.pos)
				switch fatal {
				case 1:
					in.event(r.st, "exit", ctx.pos, linC(1))
					out = append(out, exitRet(r.st, "log.Fatal", ctx)...)
				case 2:
					out = append(out, Ret{st: r.st, panic: &PanicInfo{msg: "log.Panic", pos: ctx.pos}})
				default:
					out = append(out, Ret{st: r.st, v: Tuple{}})
				}
			}
			return out
		}
	}
	for k, n := range map[string]string{"f": "f", "ln": "ln", "": ""} {
		models["log.Print"+n] = logm(k, 0)
		models["log.Fatal"+n] = logm(k, 1)
		models["log.Panic"+n] = logm(k, 2)
	}
	models["log.SetFlags"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret { return ret1(st, Tuple{}) }
	models["log.SetPrefix"] = models["log.SetFlags"]
	models["os.Exit"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		in.event(st, "exit", ctx.pos, args[0])
		return exitRet(st, "os.Exit", ctx)
	}
	models["io.WriteString"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		var out []Ret
		for _, z := range in.writeVal(st, args[0], strOf(args[1]), ctx) {
			out = append(out, Ret{st: z, v: wres(in, z, ctx)})
		}
		return out
	}
	fileWrite := func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		var out []Ret
		s, ok := asBytes(in, st, args[1])
		if !ok {
			s = st.anyStr("bytes")
		}
		for _, z := range in.writeVal(st, args[0], s, ctx) {
			out = append(out, Ret{st: z, v: wres(in, z, ctx)})
		}
		return out
	}
	models["(*os.File).Write"] = fileWrite
	models["(*os.File).WriteString"] = fileWrite
	models["io.MultiWriter"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		var tags []string
		for _, w := range in.varargs(st, args[0]) {
			if i, ok := w.(Iface); ok {
				w = i.v
			}
			if o, ok := w.(Opaque); ok {
				tags = append(tags, o.tag)
			} else {
				tags = append(tags, "writer")
			}
		}
		return ret1(st, Iface{t: in.w.errorStringT, v: Opaque{tag: strings.Join(tags, "+")}})
	}
	models["bufio.NewWriter"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		o := in.newObj(st, Agg{[]Val{Str{}, args[0]}}, nil)
		return ret1(st, Ptr{obj: o})
	}
	models["(*bufio.Writer).WriteString"] = fileWrite
	models["(*bufio.Writer).Write"] = fileWrite
	models["(*bufio.Writer).WriteByte"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		s, ok := in.runeStr(st, args[1].(Lin))
		if !ok {
			s = st.anyStr("byte")
		}
		var out []Ret
		for _, z := range in.writeVal(st, args[0], s, ctx) {
			out = append(out, Ret{st: z, v: Nil{}})
		}
		return out
	}
	models["(*bufio.Writer).Flush"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		p, ok := args[0].(Ptr)
		if !ok {
			giveUp("flush of %T", args[0])
		}
		a := in.load(st, p).(Agg)
		in.store(st, p, Agg{[]Val{Str{}, a.f[1]}})
		var out []Ret
		for _, z := range in.writeVal(st, a.f[1], a.f[0].(Str), ctx) {
			out = append(out, Ret{st: z, v: Nil{}})
		}
		return out
	}
	// encode splits on the outcome of encoding v, which is the same every time for the same pointer
	encode := func(in *Interp, st *State, v Val, ctx *callCtx) (good, bad *State, err Val) {
		if i, ok := v.(Iface); ok {
			v = i.v
		}
		if p, ok := v.(Ptr); ok {
			for _, e := range st.events {
				if (e.kind == "json ok" || e.kind == "json error") && samePtr(e.args[0], p) {
					if e.kind == "json ok" {
						return st, nil, nil
					}
					return nil, st, e.args[1]
				}
			}
		}
		n := st.clone()
		in.event(st, "json ok", ctx.pos, v)
		err = in.errIface("json", n.anyStr("error text"))
		in.event(n, "json error", ctx.pos, v, err)
		return st, n, err
	}
	marshal := func(indent bool) modelFn {
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			v := args[0]
			if i, ok := v.(Iface); ok {
				v = i.v
			}
			// numbers and truth values have one text, and no error, unless they have a method of their own
			if i, ok := args[0].(Iface); ok {
				if _, plain := i.t.(*types.Basic); plain {
					switch x := v.(type) {
					case Lin:
						var out []Ret
						for _, r := range models["strconv.Itoa"](in, st, ctx, []Val{x}) {
							out = append(out, Ret{st: r.st, v: Tuple{BytesV{strOf(r.v)}, Nil{}}})
						}
						return out
					case bool:
						return ret1(st, Tuple{BytesV{lit(map[bool]string{true: "true", false: "false"}[x])}, Nil{}})
					}
				}
			}
			good, bad, err := encode(in, st, args[0], ctx)
			var out []Ret
			if good != nil {
				out = append(out, Ret{st: good, v: Tuple{BytesV{in.jsonText(good, v, indent)}, Nil{}}})
			}
			if bad != nil {
				out = append(out, Ret{st: bad, v: Tuple{Nil{}, err}})
			}
			return out
		}
	}
	models["encoding/json.Marshal"] = marshal(false)
	models["encoding/json.MarshalIndent"] = marshal(true)
	models["encoding/json.NewEncoder"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		o := in.newObj(st, Agg{[]Val{args[0]}}, nil)
		return ret1(st, Ptr{obj: o})
	}
	models["(*encoding/json.Encoder).Encode"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		w := in.load(st, args[0].(Ptr)).(Agg).f[0]
		v := args[1]
		if i, ok := v.(Iface); ok {
			v = i.v
		}
		good, bad, err := encode(in, st, v, ctx)
		var out []Ret
		if good != nil {
			s := in.jsonText(good, v, false)
			s.it = append(s.it, Item{k: iLit, b: '\n'})
			for _, z := range in.writeVal(good, w, s, ctx) {
				out = append(out, Ret{st: z, v: Nil{}})
			}
		}
		if bad != nil {
			out = append(out, Ret{st: bad, v: err})
		}
		return out
	}
	for _, n := range []string{"SetIndent", "SetEscapeHTML"} {
		models["(*encoding/json.Encoder)."+n] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret { return ret1(st, Tuple{}) }
	}

	// flags and arguments
	parsed := func(st *State) bool {
		for _, e := range st.events {
			if e.kind == "flag.Parse" {
				return true
			}
		}
		return false
	}
	models["flag.Parse"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		in.event(st, "flag.Parse", ctx.pos)
		return ret1(st, Tuple{})
	}
	argsOf := func(in *Interp, st *State) Val {
		if in.argv == nil || !parsed(st) {
			return Nil{}
		}
		return in.argv(st)
	}
	models["flag.Args"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		return ret1(st, argsOf(in, st))
	}
	models["flag.NArg"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		switch v := argsOf(in, st).(type) {
		case Slice:
			return ret1(st, linC(int64(v.n)))
		case SumSlice:
			return ret1(st, v.n)
		}
		return ret1(st, linC(0))
	}
	models["flag.Arg"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		switch v := argsOf(in, st).(type) {
		case Slice:
			el := in.elems(st, v)
			var out []Ret
			for _, w := range in.constInts(st, args[0].(Lin), 20) {
				if w.ok && w.i >= 0 && int(w.i) < len(el) {
					out = append(out, Ret{st: w.st, v: el[w.i]})
				} else {
					out = append(out, Ret{st: w.st, v: Str{}})
				}
			}
			return out
		case SumSlice:
			return ret1(st, v.elem)
		}
		return ret1(st, Str{})
	}

	// locks and once
	noop := func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret { return ret1(st, Tuple{}) }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		models[n] = noop
	}
	models["(*sync.Once).Do"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		p, ok := args[0].(Ptr)
		if !ok {
			giveUp("Once.Do on %T", args[0])
		}
		a, ok := in.load(st, p).(Agg)
		if !ok {
			giveUp("sync.Once of unknown state")
		}
		if l := st.norm(a.f[0].(Lin)); l.isConst() && l.c == 1 {
			return ret1(st, Tuple{})
		}
		n := len(st.wrote)
		in.store(st, p, Agg{[]Val{linC(1)}})
		rs := in.callVal(st, args[1], nil, ctx.site)
		for i := range rs { // initialisation guarded by a Once is not an observable effect
			if len(rs[i].st.wrote) >= n {
				rs[i].st.wrote = rs[i].st.wrote[:n]
			}
			if rs[i].panic == nil {
				rs[i].v = Tuple{}
			}
		}
		return rs
	}

	// regexp
	comp := func(must, ok2 bool) modelFn {
		return func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			p, ok := st.constStr(strOf(args[0]))
			if !ok {
				giveUp("regular expression built at run time at %s", ctx.pos)
			}
			re := compileRegex(p)
			if re.err != "" {
				if must {
					return []Ret{{st: st, panic: &PanicInfo{msg: "regexp: Compile(" + p + "): " + re.err, pos: ctx.pos}}}
				}
				return ret1(st, Tuple{Nil{}, in.errIface("regexp", st.anyStr("error text"))})
			}
			v := Val(RegexpV{re})
			if ok2 {
				return ret1(st, Tuple{v, Nil{}})
			}
			return ret1(st, v)
		}
	}
	models["regexp.MustCompile"] = comp(true, false)
	models["regexp.Compile"] = comp(false, true)
	models["regexp.MatchString"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		var out []Ret
		for _, r := range comp(false, true)(in, st, ctx, args[:1]) {
			t := r.v.(Tuple)
			if _, bad := t[0].(Nil); bad {
				out = append(out, Ret{st: r.st, v: Tuple{false, t[1]}})
				continue
			}
			for _, w := range r.st.inLang(strOf(args[1]), t[0].(RegexpV).re.DFA()) {
				out = append(out, Ret{st: w.st, v: Tuple{w.b, Nil{}}})
			}
		}
		return out
	}
	models["regexp.QuoteMeta"] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
		if c, ok := st.constStr(strOf(args[0])); ok {
			return ret1(st, lit(regexQuote(c)))
		}
		return ret1(st, st.anyStr("quoted"))
	}
	recv := func(v Val, ctx *callCtx) (*RegexInfo, *PanicInfo) {
		switch r := v.(type) {
		case RegexpV:
			return r.re, nil
		case Nil:
			return nil, &PanicInfo{msg: "nil pointer dereference (nil *regexp.Regexp)", pos: ctx.pos}
		}
		giveUp("regular expression %T", v)
		return nil, nil
	}
	rx := func(name string, f func(in *Interp, st *State, ctx *callCtx, re *RegexInfo, args []Val) []Ret) {
		models["(*regexp.Regexp)."+name] = func(in *Interp, st *State, ctx *callCtx, args []Val) []Ret {
			re, p := recv(args[0], ctx)
			if p != nil {
				if ctx.site != nil {
					p.fn = ctx.site.Parent().String()
				}
				return []Ret{{st: st, panic: p}}
			}
			return f(in, st, ctx, re, args[1:])
		}
	}
	match := func(in *Interp, st *State, ctx *callCtx, re *RegexInfo, args []Val) []Ret {
		return boolRets(st.inLang(strOf(args[0]), re.DFA()))
	}
	rx("MatchString", match)
	rx("Match", match)
	rx("NumSubexp", func(in *Interp, st *State, ctx *callCtx, re *RegexInfo, args []Val) []Ret {
		return ret1(st, linC(int64(re.NumCap)))
	})
	rx("String", func(in *Interp, st *State, ctx *callCtx, re *RegexInfo, args []Val) []Ret {
		return ret1(st, lit(re.Pattern))
	})
	rx("SubexpNames", func(in *Interp, st *State, ctx *callCtx, re *RegexInfo, args []Val) []Ret {
		var vals []Val
		for _, n := range re.Names {
			vals = append(vals, lit(n))
		}
		return ret1(st, in.sliceOf(st, vals, types.Typ[types.String]))
	})
	rx("SubexpIndex", func(in *Interp, st *State, ctx *callCtx, re *RegexInfo, args []Val) []Ret {
		if c, ok := st.constStr(strOf(args[0])); ok {
			for i, n := range re.Names {
				if n == c && c != "" {
					return ret1(st, linC(int64(i)))
				}
			}
			return ret1(st, linC(-1))
		}
		return ret1(st, linS(st.newInt(-1, int64(re.NumCap), "group")))
	})
	groupVal := func(st *State, w capWorld, re *RegexInfo, g int) Str {
		if w.langs == nil {
			if w.caps[2*g] < 0 {
				return Str{}
			}
			return Str{w.s.it[w.caps[2*g]:w.caps[2*g+1]:w.caps[2*g+1]]}
		}
		if g == 0 {
			if re.wholeString() {
				return w.s
			}
			return st.anyStr("match")
		}
		d := w.langs[g]
		if d == nil {
			return st.anyStr("group")
		}
		if w.unset[g] {
			d = d.Or(dfaLit(""))
		}
		if d.Empty() {
			return Str{}
		}
		s, _ := st.opqStr(d, "group")
		return s
	}
	rx("FindStringSubmatch", func(in *Interp, st *State, ctx *callCtx, re *RegexInfo, args []Val) []Ret {
		var out []Ret
		for _, w := range st.findSubmatch(strOf(args[0]), re) {
			if !w.match {
				out = append(out, Ret{st: w.st, v: Nil{}})
				continue
			}
			var vals []Val
			for g := 0; g <= re.NumCap; g++ {
				vals = append(vals, groupVal(w.st, w, re, g))
			}
			out = append(out, Ret{st: w.st, v: in.sliceOf(w.st, vals, types.Typ[types.String])})
		}
		return out
	})
	rx("FindString", func(in *Interp, st *State, ctx *callCtx, re *RegexInfo, args []Val) []Ret {
		var out []Ret
		for _, w := range st.findSubmatch(strOf(args[0]), re) {
			if !w.match {
				out = append(out, Ret{st: w.st, v: Str{}})
				continue
			}
			out = append(out, Ret{st: w.st, v: groupVal(w.st, w, re, 0)})
		}
		return out
	})
	index := func(all bool) func(in *Interp, st *State, ctx *callCtx, re *RegexInfo, args []Val) []Ret {
		return func(in *Interp, st *State, ctx *callCtx, re *RegexInfo, args []Val) []Ret {
			var out []Ret
			for _, w := range st.findSubmatch(strOf(args[0]), re) {
				if !w.match {
					out = append(out, Ret{st: w.st, v: Nil{}})
					continue
				}
				n := 2
				if all {
					n = 2 * (re.NumCap + 1)
				}
				var vals []Val
				for g := 0; g < n; g++ {
					if w.langs == nil {
						vals = append(vals, linC(int64(w.caps[g])))
						continue
					}
					if g%2 == 0 {
						lo := int64(0)
						if w.unset[g/2] {
							lo = -1
						}
						a := linS(w.st.newInt(lo, inf, "start"))
						b := linS(w.st.newInt(lo, inf, "end"))
						w.st.assumeRange(b.minus(a), 0, inf)
						w.st.assumeRange(b.minus(w.st.strLen(w.s)), -inf, 0)
						vals = append(vals, a, b)
					}
				}
				out = append(out, Ret{st: w.st, v: in.sliceOf(w.st, vals, types.Typ[types.Int])})
			}
			return out
		}
	}
	rx("FindStringIndex", index(false))
	rx("FindStringSubmatchIndex", index(true))
	rx("ReplaceAllString", func(in *Interp, st *State, ctx *callCtx, re *RegexInfo, args []Val) []Ret {
		r, ok := st.constStr(strOf(args[1]))
		if !ok || strings.Contains(r, "$") {
			return ret1(st, st.anyStr("replaced"))
		}
		var out []Ret
		for _, w := range st.inLang(strOf(args[0]), re.DFA()) {
			if !w.b {
				out = append(out, Ret{st: w.st, v: strOf(args[0])})
				continue
			}
			for _, l := range w.st.lay(strOf(args[0])) {
				if !l.cells || !asciiItems(l.it) {
					out = append(out, Ret{st: l.st, v: l.st.anyStr("replaced")})
					continue
				}
				var rec func(st *State, it []Item, pre []Item, depth int)
				rec = func(st *State, it []Item, pre []Item, depth int) {
					if depth > 40 {
						giveUp("too many replacements")
					}
					for _, m := range st.findSubmatch(Str{it}, re) {
						if !m.match || m.langs != nil || m.caps[1] == m.caps[0] {
							if m.match {
								out = append(out, Ret{st: m.st, v: m.st.anyStr("replaced")})
							} else {
								out = append(out, Ret{st: m.st, v: Str{append(append([]Item(nil), pre...), it...)}})
							}
							continue
						}
						p := append(append([]Item(nil), pre...), it[:m.caps[0]]...)
						p = append(p, lit(r).it...)
						rec(m.st, it[m.caps[1]:], p, depth+1)
					}
				}
				if strings.ContainsAny(re.Pattern, "^$") || strings.Contains(re.Pattern, `\b`) || strings.Contains(re.Pattern, `\A`) || strings.Contains(re.Pattern, `\z`) {
					out = append(out, Ret{st: l.st, v: l.st.anyStr("replaced")})
					continue
				}
				rec(l.st, l.it, nil, 0)
			}
		}
		return out
	})
}

// wholeString: every match covers the whole input.
func (r *RegexInfo) wholeString() bool {
	p := r.Pattern
	return (strings.HasPrefix(p, "^") || strings.HasPrefix(p, `\A`)) && (strings.HasSuffix(p, "$") || strings.HasSuffix(p, `\z`)) && !topAlt(p)
}

// topAlt: an alternation outside any group.
func topAlt(p string) bool {
	d := 0
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '\\':
			i++
		case '(':
			d++
		case ')':
			d--
		case '[':
			for i++; i < len(p) && p[i] != ']'; i++ {
				if p[i] == '\\' {
					i++
				}
			}
		case '|':
			if d == 0 {
				return true
			}
		}
	}
	return false
}
