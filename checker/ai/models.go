package ai

import (
	"go/constant"
	"go/types"
	"net/http"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func set(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		for _, f := range strings.Fields(n) {
			m[f] = true
		}
	}
	return m
}

// pure library functions: the result is a function of the arguments only.
var pure = set(
	`strings.HasPrefix strings.HasSuffix strings.Index strings.IndexByte strings.IndexRune strings.IndexAny
	strings.LastIndex strings.LastIndexByte strings.Contains strings.ContainsRune strings.ContainsAny strings.ToUpper strings.ToLower
	strings.TrimPrefix strings.Trim strings.TrimLeft strings.TrimRight strings.TrimSpace
	strings.Split strings.SplitN strings.SplitAfter strings.Join strings.Repeat strings.Replace strings.ReplaceAll strings.EqualFold
	strings.Fields strings.Count strings.Compare strings.Title strings.NewReplacer (*strings.Replacer).Replace
	strconv.Itoa strconv.Atoi strconv.ParseInt strconv.ParseUint strconv.FormatInt strconv.FormatUint strconv.Quote strconv.ParseBool strconv.ParseFloat
	net/http.CanonicalHeaderKey net/http.StatusText net/textproto.CanonicalMIMEHeaderKey
	fmt.Sprintf fmt.Sprint fmt.Sprintln
	(*net/url.URL).Query (*net/url.URL).String (*net/url.URL).RequestURI (*net/url.URL).EscapedPath net/url.ParseQuery net/url.QueryEscape net/url.QueryUnescape net/url.PathEscape net/url.PathUnescape
	path.Clean path.Base path.Join
	reflect.ValueOf reflect.TypeOf (reflect.Value).Elem (reflect.Value).InterfaceData (reflect.Value).Pointer (reflect.Value).UnsafePointer (reflect.Value).Kind (reflect.Value).IsNil (reflect.Value).Type (reflect.Value).Interface
	(*regexp.Regexp).FindStringSubmatch (*regexp.Regexp).FindAllStringSubmatchIndex (*regexp.Regexp).FindStringSubmatchIndex (*regexp.Regexp).String (*regexp.Regexp).SubexpNames (*regexp.Regexp).MatchString (*regexp.Regexp).NumSubexp (*regexp.Regexp).FindString (*regexp.Regexp).FindStringIndex (*regexp.Regexp).SubexpIndex
	(*regexp/syntax.Regexp).Simplify (*regexp/syntax.Prog).StartCond regexp.QuoteMeta
	unicode/utf8.DecodeRuneInString unicode/utf8.RuneLen unicode/utf8.ValidString unicode/utf8.RuneCountInString unicode.IsUpper unicode.IsLetter
	(time.Time).Sub (time.Time).Add (time.Time).UTC (time.Time).Format (time.Time).Before (time.Time).After (time.Time).Equal (time.Time).IsZero (time.Time).Unix (time.Time).UnixNano time.Unix time.Date (time.Duration).Seconds (time.Duration).Nanoseconds (time.Duration).String (time.Duration).Milliseconds (time.Duration).Microseconds (time.Time).In (time.Time).Local
	runtime.NumCPU runtime.GOMAXPROCS os.Getenv os.Getpid os.Getppid
	(net.Listener).Addr (*net.TCPListener).Addr (net.Conn).LocalAddr (net.Conn).RemoteAddr
	(io/fs.FileInfo).Mode (io/fs.FileMode).IsRegular (io/fs.FileMode).Type
	(*encoding/base64.Encoding).EncodeToString encoding/hex.EncodeToString
	sort.SearchStrings sort.SearchInts errors.Is (error).Error (*net.OpError).Error (*net.OpError).Unwrap errors.Unwrap
	slices.Contains slices.Clone bytes.Equal
	(*regexp.Regexp).LiteralPrefix math/bits.OnesCount`)

// benign library calls have effects, but not on memory of the program apart
// from objects passed to them directly.
var benign = set(
	`log.Print log.Printf log.Println log.Flags log.SetFlags log.SetOutput log.SetPrefix log.Prefix log.Output (*log.Logger).Printf (*log.Logger).Print (*log.Logger).Println
	(*bytes.Buffer).String (*bytes.Buffer).Write (*bytes.Buffer).WriteRune (*bytes.Buffer).WriteString (*bytes.Buffer).WriteByte (*bytes.Buffer).Len (*bytes.Buffer).Bytes (*bytes.Buffer).Reset
	(*strings.Builder).String (*strings.Builder).WriteString (*strings.Builder).WriteByte (*strings.Builder).WriteRune (*strings.Builder).Write (*strings.Builder).Len (*strings.Builder).Grow
	time.Now time.Since time.Sleep time.After time.NewTimer (*time.Timer).Stop (*time.Timer).Reset time.Tick
	runtime/debug.PrintStack runtime/debug.Stack runtime.Caller runtime.Gosched runtime.Stack
	os.Hostname os.NewFile os.Stat os.Setenv os.Unsetenv (*os.File).Close (*os.File).Stat (*os.File).Fd (*os.File).Name os.Remove
	syscall.CloseOnExec syscall.Kill
	net.Listen net.FileListener net.Dial net.DialTimeout (net.Listener).Accept (*net.TCPListener).AcceptTCP (*net.TCPListener).Accept (net.Listener).Close (*net.TCPListener).Close
	(net.Conn).Close (net.Conn).SetDeadline (net.Conn).SetReadDeadline (net.Conn).SetWriteDeadline (net.Conn).Write (net.Conn).Read
	(*net.TCPConn).SetKeepAlive (*net.TCPConn).SetKeepAlivePeriod
	os/signal.Notify os/signal.Stop os/signal.Ignore os/signal.Reset
	flag.Parse flag.Parsed flag.StringVar flag.String flag.Bool flag.BoolVar
	crypto/rand.Read io.ReadFull crypto/tls.LoadX509KeyPair crypto/tls.NewListener
	net/http.Error net/http.Handle net/http.HandleFunc
	fmt.Fprintf fmt.Fprint fmt.Fprintln fmt.Printf fmt.Println
	(*net/http.Server).SetKeepAlivesEnabled
	regexp.Compile regexp.MustCompile regexp/syntax.Compile regexp/syntax.Parse
	sort.Strings sort.Ints slices.Sort
	context.Background context.TODO`)

// benignNoWrite: the call does not write to its arguments.
var benignNoWrite = set(
	`log.Print log.Printf log.Println (*bytes.Buffer).String (*strings.Builder).String flag.StringVar crypto/tls.NewListener net/http.Handle
	(net.Conn).Close (net.Conn).SetDeadline (net.Conn).SetReadDeadline (net.Conn).SetWriteDeadline (net.Conn).Write
	(net.Listener).Accept (net.Listener).Close (*net/http.Server).SetKeepAlivesEnabled syscall.CloseOnExec os/signal.Notify os/signal.Stop
	(*bytes.Buffer).Len (*strings.Builder).Len fmt.Printf fmt.Println`)

type model func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome

func ret(st *State, vs ...*Term) []Outcome { return []Outcome{{Kind: Ret, St: st, Vals: vs}} }

var models map[string]model

func simpleEvent(kind, name string) model {
	return func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
		e := c.Event(nil)
		e.Kind, e.Name = kind, name
		m.emit(st, e)
		return ret(st)
	}
}

func exitModel(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
	m.emit(st, c.Event(nil))
	return []Outcome{{Kind: Exit, St: st}}
}

func nonNilErr(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
	v := Sym("nonnil:"+c.Name+":"+st.freshName(c.Site), types.Universe.Lookup("error").Type())
	m.emit(st, c.Event([]*Term{v}))
	return ret(st, v)
}

// okOrErr: returns (non-nil, nil) or (nil, non-nil error).
func okOrErr(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
	s2 := st.Copy()
	rs := c.Sig.Results()
	v := Sym("nonnil:"+c.Name+":"+st.freshName(c.Site), rs.At(0).Type())
	e := Sym("nonnil:err:"+c.Name+":"+s2.freshName(c.Site), rs.At(1).Type())
	m.emit(st, c.Event([]*Term{v, Nil()}))
	m.emit(s2, c.Event([]*Term{Nil(), e}))
	return []Outcome{{Kind: Ret, St: st, Vals: []*Term{v, Nil()}}, {Kind: Ret, St: s2, Vals: []*Term{Zero(rs.At(0).Type()), e}}}
}

func lockModel(read bool) model {
	return func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
		mu := c.Args[0]
		k := "lock"
		if read {
			k = "rlock"
		}
		if h := st.Locks[mu.ID]; h != 0 && !(read && h < 0) {
			m.emit(st, &Event{Kind: "relock", Args: []*Term{mu}, Pos: c.Pos, Fn: c.In.String(), Site: c.Site})
			return []Outcome{{Kind: Block, St: st}}
		}
		if read {
			st.Locks[mu.ID]--
		} else {
			st.Locks[mu.ID] = 1
		}
		m.emit(st, &Event{Kind: k, Args: []*Term{mu}, Pos: c.Pos, Fn: c.In.String(), Site: c.Site})
		if m.OnLock != nil {
			var outs []Outcome
			for _, s := range m.OnLock(m, st, mu, read) {
				outs = append(outs, Outcome{Kind: Ret, St: s})
			}
			return outs
		}
		return ret(st)
	}
}

func unlockModel(read bool) model {
	return func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
		mu := c.Args[0]
		k := "unlock"
		if read {
			k = "runlock"
		}
		h := st.Locks[mu.ID]
		if h == 0 || read && h > 0 || !read && h < 0 {
			m.emit(st, &Event{Kind: "badunlock", Args: []*Term{mu}, Pos: c.Pos, Fn: c.In.String(), Site: c.Site})
			return []Outcome{{Kind: Exit, St: st}}
		}
		m.emit(st, &Event{Kind: k, Args: []*Term{mu}, Pos: c.Pos, Fn: c.In.String(), Site: c.Site})
		if read {
			st.Locks[mu.ID]++
		} else {
			st.Locks[mu.ID] = 0
		}
		if st.Locks[mu.ID] == 0 {
			delete(st.Locks, mu.ID)
		}
		if m.OnUnlock != nil {
			m.OnUnlock(m, st, mu, read)
		}
		return ret(st)
	}
}

func (m *Machine) atomicAccess(fr *frame, st *State, c *CallCtx, a *Term, w bool, t types.Type) {
	if m.OnAccess != nil && m.noAccess == 0 {
		m.OnAccess(st, &Access{Addr: a, Write: w, Atomic: true, Typ: t, Pos: c.Pos, In: c.In})
	}
}

// atomicOp models both the functions (sync/atomic.AddUint64) and the methods
// ((*sync/atomic.Uint64).Add).
func atomicOp(op string, method bool) model {
	return func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
		a := c.Args[0]
		var t types.Type
		switch {
		case c.Sig.Results().Len() > 0 && op != "CompareAndSwap":
			t = c.Sig.Results().At(0).Type()
		default:
			t = c.Sig.Params().At(c.Sig.Params().Len() - 1).Type()
		}
		if method {
			a = FA(a, 90, t)
		}
		e := c.Event(nil)
		e.Kind, e.Name = "atomic", op
		w := op != "Load"
		m.atomicAccess(fr, st, c, c.Args[0], w, t)
		switch op {
		case "Load":
			v := m.Load(st, a, t)
			e.Res = []*Term{v}
			m.emit(st, e)
			return ret(st, v)
		case "Store":
			v := c.Args[1]
			m.emit(st, e)
			m.Store(st, a, v, t)
			if r := a.Root(); r.Op != "obj" || st.esc[r.ID] {
				m.escape(st, v)
			}
			return ret(st)
		case "Add":
			// Each addition yields a value of its own.
			v := st.Fresh("atomicadd:"+c.Site, t)
			e.Res = []*Term{v}
			m.emit(st, e)
			m.Store(st, a, v, t)
			return ret(st, v)
		case "Swap":
			old := m.Load(st, a, t)
			e.Res = []*Term{old}
			m.emit(st, e)
			m.Store(st, a, c.Args[1], t)
			return ret(st, old)
		case "CompareAndSwap":
			s2 := st.Copy()
			cur := m.Load(st, a, t)
			var outs []Outcome
			if st.Assume(Eq(cur, c.Args[1]), true) {
				e1 := *e
				e1.Res = []*Term{True()}
				m.emit(st, &e1)
				m.Store(st, a, c.Args[2], t)
				outs = append(outs, Outcome{Kind: Ret, St: st, Vals: []*Term{True()}})
			}
			if s2.Assume(Eq(cur, c.Args[1]), false) {
				e2 := *e
				e2.Res = []*Term{False()}
				m.emit(s2, &e2)
				outs = append(outs, Outcome{Kind: Ret, St: s2, Vals: []*Term{False()}})
			}
			return outs
		}
		return nil
	}
}

func init() {
	models = map[string]model{
		"log.Fatal": exitModel, "log.Fatalf": exitModel, "log.Fatalln": exitModel, "os.Exit": exitModel,
		"(*log.Logger).Fatal": exitModel, "(*log.Logger).Fatalf": exitModel,
		"log.Panic": panicModel, "log.Panicf": panicModel, "log.Panicln": panicModel,
		"errors.New": nonNilErr, "fmt.Errorf": nonNilErr,
		"net.Listen": okOrErr, "net.FileListener": okOrErr, "net.Dial": okOrErr, "net.DialTimeout": okOrErr,
		"regexp.Compile": okOrErr, "regexp/syntax.Parse": okOrErr, "regexp/syntax.Compile": okOrErr, "regexp.CompilePOSIX": okOrErr,
		"(*regexp.Regexp).FindStringSubmatch": find, "(*regexp.Regexp).FindStringSubmatchIndex": find,
		"(*regexp.Regexp).FindStringIndex": find, "(*regexp.Regexp).FindString": find,
		"strings.IndexFunc": withFunc, "strings.LastIndexFunc": withFunc, "strings.ContainsFunc": withFunc, "strings.TrimLeftFunc": withFunc, "strings.TrimFunc": withFunc, "strings.TrimRightFunc": withFunc,
		"maps.Copy": func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
			dst, src := c.Args[0], c.Args[1]
			if src.IsNil() {
				return ret(st)
			}
			m.mapAccess(fr, st, src, false, c.Pos)
			m.mapAccess(fr, st, dst, true, c.Pos)
			e := c.Event(nil)
			e.Kind, e.Name = "mapcopy", ""
			m.emit(st, e)
			if !dst.IsNil() {
				m.mapCopy(st, dst, src, c.Site)
			}
			return ret(st)
		},
		"maps.Clone": func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
			src := c.Args[0]
			var outs []Outcome
			if s2 := st.Copy(); s2.Assume(Eq(src, Nil()), true) {
				outs = append(outs, ret(s2, Zero(src.Typ))...)
			}
			if st.Assume(Eq(src, Nil()), false) {
				m.mapAccess(fr, st, src, false, c.Pos)
				o := st.NewObj(c.Site+":map", src.Typ)
				m.mapClone(st, o, src)
				m.emit(st, &Event{Kind: "mapcopy", Args: []*Term{o, src}, Call: c, Pos: c.Pos, Fn: c.In.String(), Site: c.Site})
				outs = append(outs, ret(st, o)...)
			}
			return outs
		},
		"strconv.Atoi": parseInt, "strconv.ParseInt": parseInt, "os.LookupEnv": lookupEnv,
		"strings.CutPrefix": cutPrefix, "strings.TrimPrefix": cutPrefix, "strings.CutSuffix": cutPrefix, "strings.TrimSuffix": cutPrefix, "strings.Cut": cut, "strings.SplitN": splitN,
		"(*sync.Mutex).Lock": lockModel(false), "(*sync.Mutex).Unlock": unlockModel(false),
		"(*sync.RWMutex).Lock": lockModel(false), "(*sync.RWMutex).Unlock": unlockModel(false),
		"(*sync.RWMutex).RLock": lockModel(true), "(*sync.RWMutex).RUnlock": unlockModel(true),
		"(*sync.Mutex).TryLock": tryLock, "(*sync.RWMutex).TryLock": tryLock,
		"(sync.Locker).Lock": lockIface(false), "(sync.Locker).Unlock": lockIface(true),
		"(*sync.Once).Do":        onceModel,
		"(*sync.WaitGroup).Add":  simpleEvent("wg", "Add"),
		"(*sync.WaitGroup).Done": simpleEvent("wg", "Done"),
		"(*sync.WaitGroup).Wait": simpleEvent("wg", "Wait"),
		"(*sync.WaitGroup).Go": func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
			m.escape(st, c.Args...)
			m.emit(st, &Event{Kind: "go", Name: "wg", Args: []*Term{c.Args[1]}, Call: c, Pos: c.Pos, Fn: c.In.String(), Site: c.Site})
			return ret(st)
		},
		"(*sync.Pool).Get": func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
			v := st.Fresh("pool:"+c.Site, types.NewInterfaceType(nil, nil))
			e := c.Event([]*Term{v})
			e.Kind, e.Name = "pool", "Get"
			m.emit(st, e)
			return ret(st, v)
		},
		"(*sync.Pool).Put": func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
			e := c.Event(nil)
			e.Kind, e.Name = "pool", "Put"
			m.emit(st, e)
			m.escape(st, c.Args[1])
			return ret(st)
		},
		"(net/http.ResponseWriter).Header": func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
			return ret(st, App("Header", c.Sig.Results().At(0).Type(), c.Recv))
		},
		"(net/http.Header).Get": func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
			k := canon(c.Args[1])
			v := m.headerGet(st, c.Args[0], k)
			e := c.Event([]*Term{v})
			e.Kind, e.Name = "hdr", "Get"
			e.Args = []*Term{c.Args[0], k}
			m.emit(st, e)
			return ret(st, v)
		},
		"(net/http.Header).Values": func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
			v, _ := m.MapGet(st, c.Args[0], canon(c.Args[1]), c.Sig.Results().At(0).Type())
			return ret(st, v)
		},
		"(net/http.Header).Set": func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
			k := canon(c.Args[1])
			e := c.Event(nil)
			e.Kind, e.Name = "hdr", "Set"
			e.Args = []*Term{c.Args[0], k, c.Args[2]}
			m.emit(st, e)
			m.mapPut(st, c.Args[0], k, True(), App("hdr1", types.NewSlice(types.Typ[types.String]), c.Args[2]))
			return ret(st)
		},
		"(net/http.Header).Add": func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
			k := canon(c.Args[1])
			e := c.Event(nil)
			e.Kind, e.Name = "hdr", "Add"
			e.Args = []*Term{c.Args[0], k, c.Args[2]}
			old, _ := m.MapGet(st, c.Args[0], k, types.NewSlice(types.Typ[types.String]))
			m.emit(st, e)
			m.mapPut(st, c.Args[0], k, True(), App("hdradd", types.NewSlice(types.Typ[types.String]), old, c.Args[2]))
			return ret(st)
		},
		"(net/http.Header).Del": func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
			k := canon(c.Args[1])
			e := c.Event(nil)
			e.Kind, e.Name = "hdr", "Del"
			e.Args = []*Term{c.Args[0], k}
			m.emit(st, e)
			m.mapPut(st, c.Args[0], k, False(), Nil())
			return ret(st)
		},
		"(net/http.HandlerFunc).ServeHTTP": func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
			c2 := *c
			c2.Args = c.Args[1:]
			c2.Name, c2.Fn, c2.Recv = "", nil, nil
			return m.callValue(fr, st, c.Args[0], &c2)
		},
		"(*crypto/tls.Config).Clone": func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
			// a fresh copy with every field
			pt := c.Sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			src := c.Args[0]
			var outs []Outcome
			s2 := st.Copy()
			if st.Assume(Eq(src, Nil()), false) {
				o := st.NewObj(c.Site+":tlsclone", pt)
				ut := pt.Underlying().(*types.Struct)
				for i := 0; i < ut.NumFields(); i++ {
					if ut.Field(i).Name() == "mutex" {
						continue
					}
					ft := ut.Field(i).Type()
					v := m.Load(st, FA(src, i, ft), ft)
					m.Store(st, FA(o, i, ft), v, ft)
				}
				m.emit(st, c.Event([]*Term{o}))
				outs = append(outs, Outcome{Kind: Ret, St: st, Vals: []*Term{o}})
			}
			if s2.Assume(Eq(src, Nil()), true) {
				outs = append(outs, Outcome{Kind: Ret, St: s2, Vals: []*Term{Nil()}})
			}
			return outs
		},
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, op := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
			models["sync/atomic."+op+t] = atomicOp(op, false)
		}
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Value"} {
		for _, op := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
			models["(*sync/atomic."+t+")."+op] = atomicOp(op, true)
		}
	}
	for _, op := range []string{"Load", "Store", "Swap", "CompareAndSwap"} {
		models["(*sync/atomic.Pointer[T])."+op] = atomicOp(op, true)
	}
}

func (m *Machine) headerGet(st *State, h, k *Term) *Term {
	v, has := m.MapGet(st, h, k, types.NewSlice(types.Typ[types.String]))
	if st.Decide(has) == -1 {
		return Str("")
	}
	return hdrFirst(v)
}

func hdrFirst(v *Term) *Term {
	if v.IsNil() {
		return Str("")
	}
	if v.Op == "app" && v.S == "hdr1" {
		return v.Args[0]
	}
	return App("hdrfirst", types.Typ[types.String], v)
}

// HeaderGet is the value Header.Get would return.
func (m *Machine) HeaderGet(st *State, h *Term, key string) *Term {
	return m.headerGet(st, h, Str(http.CanonicalHeaderKey(key)))
}

func canon(k *Term) *Term {
	if s, ok := k.Str(); ok {
		return Str(http.CanonicalHeaderKey(s))
	}
	if k.Op == "app" && k.S == "net/http.CanonicalHeaderKey" {
		return k
	}
	return App("net/http.CanonicalHeaderKey", types.Typ[types.String], k)
}

func panicModel(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
	m.emit(st, c.Event(nil))
	return []Outcome{{Kind: Panic, Pan: Sym("nonnil:panic:"+c.Site, nil), St: st}}
}

func tryLock(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
	s2 := st.Copy()
	var outs []Outcome
	for _, o := range lockModel(false)(m, fr, st, c) {
		if o.Kind == Ret {
			o.Vals = []*Term{True()}
			outs = append(outs, o)
		}
	}
	return append(outs, Outcome{Kind: Ret, St: s2, Vals: []*Term{False()}})
}

func lockIface(un bool) model {
	return func(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
		c2 := *c
		c2.Args = []*Term{c.Recv}
		if un {
			return unlockModel(false)(m, fr, st, &c2)
		}
		return lockModel(false)(m, fr, st, &c2)
	}
}

// onceModel: the first call runs the function; later ones (after it is done) do
// not. Both possibilities are explored unless known from this path.
func onceModel(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
	o, f := c.Args[0], c.Args[1]
	key := "once:" + strconv.Itoa(o.ID)
	ev := func(s *State, kind string) {
		m.emit(s, &Event{Kind: kind, Args: []*Term{o}, Pos: c.Pos, Fn: c.In.String(), Site: c.Site})
	}
	known := st.Ghost[key]
	var outs []Outcome
	if known != nil && known == Str("running") {
		ev(st, "oncedeadlock")
		return []Outcome{{Kind: Block, St: st}}
	}
	if known == nil && m.OnceFork || known == Str("done") {
		s2 := st
		if known == nil {
			s2 = st.Copy()
		}
		s2.Ghost[key] = Str("done")
		ev(s2, "onceskip")
		outs = append(outs, Outcome{Kind: Ret, St: s2})
		if known != nil {
			return outs
		}
	}
	st.Ghost[key] = Str("running")
	ev(st, "once")
	c2 := *c
	c2.Args, c2.Name, c2.Fn, c2.Recv = nil, "", nil, nil
	c2.Sig = types.NewSignatureType(nil, nil, nil, nil, nil, false)
	for _, r := range m.callValue(fr, st, f, &c2) {
		if r.Kind == Ret || r.Kind == Panic {
			r.St.Ghost[key] = Str("done")
			ev(r.St, "onceend")
			r.Vals = nil
		}
		outs = append(outs, r)
	}
	return outs
}

// sprintf formats strings and integers.
func (m *Machine) sprintf(args []*Term) *Term {
	f, ok := args[0].Str()
	if !ok {
		return nil
	}
	args = args[1:]
	out := Str("")
	for {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			break
		}
		out = Concat(out, Str(f[:i]))
		if i+1 == len(f) {
			return nil
		}
		v := f[i+1]
		f = f[i+2:]
		if v == '%' {
			out = Concat(out, Str("%"))
			continue
		}
		if len(args) == 0 || args[0].Op != "ifc" || args[0].Typ == nil {
			return nil
		}
		b, ok := args[0].Typ.(*types.Basic)
		if !ok {
			return nil
		}
		x := args[0].Args[0]
		switch {
		case b.Kind() == types.String && (v == 's' || v == 'v'):
			out = Concat(out, x)
		case (b.Kind() == types.Int || b.Kind() == types.Int64) && (v == 'd' || v == 'v'):
			out = Concat(out, m.fold("strconv.Itoa", types.Typ[types.String], []*Term{x}))
		default:
			return nil
		}
		args = args[1:]
	}
	if len(args) > 0 {
		return nil
	}
	return Concat(out, Str(f))
}

// parseInt is strconv.Atoi and the like.
func parseInt(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
	if c.Name == "strconv.ParseInt" {
		b, ok1 := c.Args[1].Int()
		n, ok2 := c.Args[2].Int()
		if !ok1 || !ok2 || b != 10 || n != 0 && n != 64 || n == 64 && m.P.Sizes.Sizeof(types.Typ[types.Int]) != 8 {
			return nil
		}
	}
	x := c.Args[0]
	if s, ok := x.Str(); ok {
		n, err := strconv.Atoi(s)
		if err != nil {
			return ret(st, Int(int64(n)), Sym("nonnil:err:strconv.Atoi:"+s, c.Sig.Results().At(1).Type()))
		}
		return ret(st, Int(int64(n)), Nil())
	}
	if st.Decide(Eq(x, Str(""))) == 1 {
		return ret(st, Int(0), Sym("nonnil:err:strconv.Atoi:", c.Sig.Results().At(1).Type()))
	}
	return ret(st, App("strconv.Atoi#0", types.Typ[types.Int], x), App("strconv.Atoi#1", c.Sig.Results().At(1).Type(), x))
}

// find is the methods of regular expressions that report the first match: they
// agree on whether there is one.
func find(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
	re, x := c.Args[0], c.Args[1]
	rt := c.Sig.Results().At(0).Type()
	is := App("(*regexp.Regexp).MatchString", types.Typ[types.Bool], re, x)
	var outs []Outcome
	s2 := st.Copy()
	if st.Assume(is, true) {
		v := App(c.Name, rt, re, x)
		if isNilable(rt) {
			st.Assume(Eq(v, Nil()), false)
		}
		outs = append(outs, ret(st, v)...)
	}
	if s2.Assume(is, false) {
		outs = append(outs, ret(s2, Zero(rt))...)
	}
	return outs
}

// withFunc is a pure function of a string and a predicate that only reads what
// it captures.
func withFunc(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
	f := c.Args[1]
	fn, ok := f.X.(*ssa.Function)
	if !ok || f.Op != "fn" && f.Op != "clo" || !m.effectFree(fn) {
		return nil
	}
	var bs []*Term
	for i, b := range f.Args {
		if t := pointee(b); t != nil && i < len(fn.FreeVars) {
			b = App("captured", t, m.Load(st, b, t))
		}
		bs = append(bs, b)
	}
	return ret(st, App(c.Name, c.Sig.Results().At(0).Type(), c.Args[0], CloT(fn, bs)))
}

// cutPrefix is strings.CutPrefix and strings.TrimPrefix, and the same for suffixes.
func cutPrefix(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
	x, p := c.Args[0], c.Args[1]
	suffix := strings.HasSuffix(c.Name, "Suffix")
	fn := "strings.HasPrefix"
	if suffix {
		fn = "strings.HasSuffix"
	}
	has := m.fold(fn, types.Typ[types.Bool], []*Term{x, p})
	var outs []Outcome
	for _, b := range []bool{true, false} {
		s := st
		if b {
			s = st.Copy()
		}
		if !s.Assume(has, b) {
			continue
		}
		v := x
		switch {
		case b && suffix:
			v = SubStr(x, Int(0), Sub(Len(x), Len(p)))
		case b:
			v = SubStr(x, Len(p), Len(x))
		}
		vs := []*Term{v, Bool(b)}
		outs = append(outs, ret(s, vs[:c.Sig.Results().Len()]...)...)
	}
	return outs
}

// cut is strings.Cut.
func cut(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
	x, p := c.Args[0], c.Args[1]
	i := m.fold("strings.Index", types.Typ[types.Int], []*Term{x, p})
	var outs []Outcome
	for _, b := range []bool{true, false} {
		s := st
		if b {
			s = st.Copy()
		}
		if !s.Assume(Le(Int(0), i), b) {
			continue
		}
		if b {
			if !s.Assume(Le(Add(i, Len(p)), Len(x)), true) {
				continue
			}
			outs = append(outs, ret(s, SubStr(x, Int(0), i), SubStr(x, Add(i, Len(p)), Len(x)), True())...)
		} else {
			outs = append(outs, ret(s, x, Str(""), False())...)
		}
	}
	return outs
}

// splitN is strings.SplitN; in two parts it is strings.Cut.
func splitN(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
	if n, ok := c.Args[2].Int(); !ok || n != 2 {
		return ret(st, App(c.Name, c.Sig.Results().At(0).Type(), c.Args...))
	}
	t := c.Sig.Results().At(0).Type()
	et := t.Underlying().(*types.Slice).Elem()
	var outs []Outcome
	for _, o := range cut(m, fr, st, c) {
		s := o.St
		b := s.NewObj(c.Name+":split", et)
		parts := o.Vals[:2]
		if o.Vals[2] == False() {
			parts = parts[:1]
		}
		for i, v := range parts {
			m.logWrite(s, b, logEntry{Lo: Int(int64(i)), N: Int(1), Val: v})
		}
		outs = append(outs, ret(s, SlT(b, Int(0), Int(int64(len(parts))), t))...)
	}
	return outs
}

// lookupEnv is os.LookupEnv: what Getenv returns, and whether it is set.
func lookupEnv(m *Machine, fr *frame, st *State, c *CallCtx) []Outcome {
	v := m.fold("os.Getenv", types.Typ[types.String], c.Args)
	s := st.Copy()
	outs := ret(st, v, True())
	if s.Assume(Eq(v, Str("")), true) {
		outs = append(outs, ret(s, Str(""), False())...)
	}
	return outs
}

// fold evaluates a pure function on constants, or builds its application.
func (m *Machine) fold(name string, rt types.Type, args []*Term) *Term {
	str := func(i int) (string, bool) {
		if i < len(args) {
			return args[i].Str()
		}
		return "", false
	}
	s0, ok0 := str(0)
	s1, ok1 := str(1)
	switch name {
	case "strings.HasPrefix":
		if ok0 && ok1 {
			return Bool(strings.HasPrefix(s0, s1))
		}
		if ok1 && s1 == "" {
			return True()
		}
	case "strings.HasSuffix":
		if ok0 && ok1 {
			return Bool(strings.HasSuffix(s0, s1))
		}
	case "strings.Contains":
		if ok0 && ok1 {
			return Bool(strings.Contains(s0, s1))
		}
		// strings.Contains(s, c) is strings.Index(s, c) >= 0
		return Le(Int(0), App("strings.Index", types.Typ[types.Int], args[0], args[1]))
	case "strings.Index":
		if ok0 && ok1 {
			return Int(int64(strings.Index(s0, s1)))
		}
	case "strings.IndexByte", "strings.IndexRune":
		if n, ok := args[1].Int(); ok && n >= 0 && n < 128 {
			return m.fold("strings.Index", rt, []*Term{args[0], Str(string(rune(n)))})
		}
	case "strings.ContainsRune":
		if n, ok := args[1].Int(); ok && n >= 0 && n < 128 {
			return m.fold("strings.Contains", rt, []*Term{args[0], Str(string(rune(n)))})
		}
	case "strings.ToUpper":
		if ok0 {
			return Str(strings.ToUpper(s0))
		}
	case "strings.ToLower":
		if ok0 {
			return Str(strings.ToLower(s0))
		}
	case "net/http.CanonicalHeaderKey", "net/textproto.CanonicalMIMEHeaderKey":
		return canon(args[0])
	case "strconv.Itoa":
		if n, ok := args[0].Int(); ok {
			return Str(strconv.FormatInt(n, 10))
		}
	case "strconv.FormatInt":
		if n, ok := args[1].Int(); ok && n == 10 {
			return m.fold("strconv.Itoa", rt, args[:1])
		}
	case "fmt.Sprintf":
		if t := m.sprintf(args); t != nil {
			return t
		}
	case "fmt.Sprint":
		if len(args) == 1 && args[0].Op == "ifc" {
			if t := m.sprintf([]*Term{Str("%v"), args[0]}); t != nil {
				return t
			}
		}
	case "net/http.StatusText":
		if n, ok := args[0].Int(); ok {
			return Str(http.StatusText(int(n)))
		}
	case "time.Unix":
		a, oka := args[0].Int()
		b, okb := args[1].Int()
		if oka && okb {
			return mk("time", strconv.FormatInt(a, 10)+"."+strconv.FormatInt(b, 10), rt, false, nil, nil)
		}
	case "time.Date":
		return App(name, rt, args...)
	case "(time.Time).UTC":
		if args[0].Op == "time" {
			return mk("timeutc", args[0].S, rt, false, nil, nil)
		}
		if args[0].Op == "timeutc" {
			return args[0]
		}
	case "(time.Time).In":
		if args[0].Op == "time" && args[1].Op == "app" && args[1].S == "stdvar" && strings.HasSuffix(args[1].String(), "time.UTC)") {
			return mk("timeutc", args[0].S, rt, false, nil, nil)
		}
	case "(time.Time).Format":
		if args[0].Op == "timeutc" && ok1 {
			p := strings.Split(args[0].S, ".")
			a, _ := strconv.ParseInt(p[0], 10, 64)
			b, _ := strconv.ParseInt(p[1], 10, 64)
			return Str(time.Unix(a, b).UTC().Format(s1))
		}
	case "(time.Duration).Nanoseconds":
		return args[0]
	}
	_ = constant.Int
	return App(name, rt, args...)
}

// Format is fmt.Sprintf for formats that only have strings and integers, or nil.
func (m *Machine) Format(args []*Term) *Term { return m.sprintf(args) }

// Fold is a pure library function of strings that gives a truth value.
func (m *Machine) Fold(name string, args ...*Term) *Term {
	return m.fold(name, types.Typ[types.Bool], args)
}
