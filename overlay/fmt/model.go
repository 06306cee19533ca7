package fmt

// Model of package fmt covering the verbs the code base and its dependencies use.

import (
	"io"
	"strconv"
)

func symTypeName(any) string
func symBasic(any) (kind int, bits uint64, s string)
func symElems(any) ([]any, bool)

type State interface {
	Write(b []byte) (n int, err error)
	Width() (wid int, ok bool)
	Precision() (prec int, ok bool)
	Flag(c int) bool
}
type Formatter interface{ Format(f State, verb rune) }
type Stringer interface{ String() string }
type GoStringer interface{ GoString() string }
type ScanState interface {
	ReadRune() (r rune, size int, err error)
	UnreadRune() error
	SkipSpace()
	Token(skipSpace bool, f func(rune) bool) (token []byte, err error)
	Width() (wid int, ok bool)
	Read(buf []byte) (n int, err error)
}
type Scanner interface {
	Scan(state ScanState, verb rune) error
}

type spec struct {
	plus, minus, sharp, zero, space bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func pad(s string, sp *spec) string {
	if !sp.hasWid {
		return s
	}
	for n := len(s); n < sp.wid; n++ {
		if sp.minus {
			s = s + " "
		} else if sp.zero {
			s = "0" + s
		} else {
			s = " " + s
		}
	}
	return s
}

const hexl = "0123456789abcdef"
const hexu = "0123456789ABCDEF"

func hexStr(s string, digits string) string {
	b := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s); i++ {
		b = append(b, digits[s[i]>>4], digits[s[i]&15])
	}
	return string(b)
}

func one(verb rune, arg any, sp *spec, depth int) string {
	if verb == 'T' {
		return pad(symTypeName(arg), sp)
	}
	if arg == nil {
		if verb == 'v' {
			return pad("<nil>", sp)
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if depth > 6 {
		return "..."
	}
	if verb != 'd' && verb != 'p' && verb != 'c' && verb != 'f' && verb != 't' && verb != 'g' && verb != 'e' {
		switch x := arg.(type) {
		case error:
			arg = x.Error()
		case Stringer:
			arg = x.String()
		}
	}
	kind, bits, s := symBasic(arg)
	switch kind {
	case 1, 2:
		base := 10
		switch verb {
		case 'd', 'v':
		case 'x', 'X':
			base = 16
		case 'o':
			base = 8
		case 'b':
			base = 2
		case 'c':
			return pad(string(rune(bits)), sp)
		case 'q':
			return pad(strconv.QuoteRune(rune(bits)), sp)
		default:
			return "%!" + string(verb) + "(" + symTypeName(arg) + ")"
		}
		var r string
		if kind == 1 {
			r = strconv.FormatInt(int64(bits), base)
		} else {
			r = strconv.FormatUint(bits, base)
		}
		if verb == 'X' {
			b := []byte(r)
			for i := range b {
				if b[i] >= 'a' {
					b[i] -= 32
				}
			}
			r = string(b)
		}
		if sp.plus && r[0] != '-' {
			r = "+" + r
		}
		if sp.zero && r[0] == '-' && sp.hasWid {
			sp.wid--
			return "-" + pad(r[1:], sp)
		}
		return pad(r, sp)
	case 3, 6, 8:
		switch verb {
		case 's', 'v':
			if kind == 3 || (kind == 6 && verb == 's') || (kind == 8 && verb == 's') {
				if sp.hasPrec && len(s) > sp.prec {
					s = s[:sp.prec]
				}
				return pad(s, sp)
			}
			r := "["
			for i := 0; i < len(s); i++ {
				if i > 0 {
					r += " "
				}
				r += strconv.Itoa(int(s[i]))
			}
			return pad(r+"]", sp)
		case 'q':
			return pad(strconv.Quote(s), sp)
		case 'x':
			return pad(hexStr(s, hexl), sp)
		case 'X':
			return pad(hexStr(s, hexu), sp)
		}
		return "%!" + string(verb) + "(" + symTypeName(arg) + "=" + s + ")"
	case 4, 7:
		f := float(bits)
		size := 64
		if kind == 7 {
			size = 32
		}
		prec := -1
		c := byte('g')
		switch verb {
		case 'v':
		case 'f', 'F':
			c, prec = 'f', 6
		case 'e':
			c, prec = 'e', 6
		case 'g':
		default:
			return "%!" + string(verb) + "(" + symTypeName(arg) + "=" + strconv.FormatFloat(f, 'g', -1, size) + ")"
		}
		if sp.hasPrec {
			prec = sp.prec
		}
		r := strconv.FormatFloat(f, c, prec, size)
		if c == 'g' && prec == -1 {
			// fmt's %v uses %g with exponent threshold 21
			if f == f && (f >= 1e-4 || f <= -1e-4) && f < 1e21 && f > -1e21 {
				r = strconv.FormatFloat(f, 'f', -1, size)
			}
		}
		if sp.plus && r[0] != '-' && r[0] != '+' {
			r = "+" + r
		}
		return pad(r, sp)
	case 5:
		if verb != 't' && verb != 'v' {
			return "%!" + string(verb) + "(bool)"
		}
		if bits == 1 {
			return pad("true", sp)
		}
		return pad("false", sp)
	}
	if es, ok := symElems(arg); ok && (verb == 'v' || verb == 's' || verb == 'd' || verb == 'q') {
		r := "["
		for i, e := range es {
			if i > 0 {
				r += " "
			}
			r += one(verb, e, &spec{}, depth+1)
		}
		return r + "]"
	}
	return "{" + symTypeName(arg) + "}"
}

func format(f string, args []any) []byte {
	var out []byte
	n := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			out = append(out, f[i])
			i++
			continue
		}
		i++
		sp := &spec{}
	flags:
		for i < len(f) {
			switch f[i] {
			case '+':
				sp.plus = true
			case '-':
				sp.minus = true
			case '#':
				sp.sharp = true
			case '0':
				sp.zero = true
			case ' ':
				sp.space = true
			default:
				break flags
			}
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			sp.wid = sp.wid*10 + int(f[i]-'0')
			sp.hasWid = true
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			sp.hasPrec = true
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				sp.prec = sp.prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		verb := rune(f[i])
		i++
		if verb == '%' {
			out = append(out, '%')
			continue
		}
		if n >= len(args) {
			out = append(out, "%!"...)
			out = append(out, byte(verb))
			out = append(out, "(MISSING)"...)
			continue
		}
		a := args[n]
		n++
		if verb == 'w' {
			verb = 'v'
		}
		out = append(out, one(verb, a, sp, 0)...)
	}
	return out
}

func print(args []any, ln bool) []byte {
	var out []byte
	prevString := false
	for i, a := range args {
		_, isStr := a.(string)
		if i > 0 && (ln || (!isStr && !prevString)) {
			out = append(out, ' ')
		}
		out = append(out, one('v', a, &spec{}, 0)...)
		prevString = isStr
	}
	if ln {
		out = append(out, '\n')
	}
	return out
}

func Sprintf(f string, a ...any) string                    { return string(format(f, a)) }
func Sprint(a ...any) string                               { return string(print(a, false)) }
func Sprintln(a ...any) string                             { return string(print(a, true)) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) { return w.Write(format(f, a)) }
func Fprint(w io.Writer, a ...any) (int, error)            { return w.Write(print(a, false)) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return w.Write(print(a, true)) }
func Printf(f string, a ...any) (int, error)               { return 0, nil }
func Print(a ...any) (int, error)                          { return 0, nil }
func Println(a ...any) (int, error)                        { return 0, nil }
func Append(b []byte, a ...any) []byte                     { return append(b, print(a, false)...) }
func Appendf(b []byte, f string, a ...any) []byte          { return append(b, format(f, a)...) }
func Appendln(b []byte, a ...any) []byte                   { return append(b, print(a, true)...) }
func FormatString(state State, verb rune) string           { return "%" + string(verb) }
func Sscan(str string, a ...any) (int, error)              { panic("fmt model: Sscan") }
func Sscanf(str string, f string, a ...any) (int, error)   { panic("fmt model: Sscanf") }
func Sscanln(str string, a ...any) (int, error)            { panic("fmt model: Sscanln") }
func Fscan(r io.Reader, a ...any) (int, error)             { panic("fmt model: Fscan") }
func Fscanf(r io.Reader, f string, a ...any) (int, error)  { panic("fmt model: Fscanf") }
func Fscanln(r io.Reader, a ...any) (int, error)           { panic("fmt model: Fscanln") }
func Scan(a ...any) (int, error)                           { panic("fmt model: Scan") }
func Scanf(f string, a ...any) (int, error)                { panic("fmt model: Scanf") }
func Scanln(a ...any) (int, error)                         { panic("fmt model: Scanln") }

// Error texts are not part of any property: errors keep their identity and what they wrap,
// and the message is formatted only when somebody asks for it.
type wrapError struct {
	f    string
	args []any
	err  error
}

func (e *wrapError) Error() string { return Sprintf(e.f, e.args...) }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	f    string
	args []any
	errs []error
}

func (e *wrapErrors) Error() string   { return Sprintf(e.f, e.args...) }
func (e *wrapErrors) Unwrap() []error { return e.errs }

type errorString struct {
	f    string
	args []any
}

func (e *errorString) Error() string { return Sprintf(e.f, e.args...) }

func Errorf(f string, a ...any) error {
	var errs []error
	n := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && (f[i] == '+' || f[i] == '-' || f[i] == '#' || f[i] == ' ' || f[i] == '.' || (f[i] >= '0' && f[i] <= '9')) {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' && n < len(a) {
			if e, ok := a[n].(error); ok {
				errs = append(errs, e)
			}
		}
		n++
	}
	switch len(errs) {
	case 0:
		return &errorString{f, a}
	case 1:
		return &wrapError{f, a, errs[0]}
	}
	return &wrapErrors{f, a, errs}
}
