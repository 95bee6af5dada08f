package main

import (
	"bufio"
	"context"
	"encoding/hex"
	"fmt"
	"go/types"
	"io"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

func proveQuickUnsat(sc string) (bool, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 6*time.Second)
	defer cancel()
	r, _ := runSolver(ctx, solverSpec{"z3-new", []string{"z3-new", "-in", "-smt2", "-T:4"}}, sc)
	return r == "unsat", r
}

type session struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	let  map[*Term]string
	dead bool
}

func newSession(sc string, secs int) (*session, string) {
	cmd := exec.Command("z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", secs*1000))
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if cmd.Start() != nil {
		return nil, "error"
	}
	s := &session{cmd: cmd, in: in, out: bufio.NewReader(out)}
	go func() {
		time.Sleep(time.Duration(secs+20) * time.Second)
		cmd.Process.Kill()
	}()
	io.WriteString(in, sc)
	l, _ := s.out.ReadString('\n')
	return s, strings.TrimSpace(l)
}

func (s *session) close() { s.cmd.Process.Kill(); s.cmd.Wait() }

func (s *session) get(t *Term) string {
	if s.dead {
		return ""
	}
	var sb strings.Builder
	t.print(&sb, nil)
	// undeclared symbols are unconstrained
	fmt.Fprintf(s.in, "(get-value (%s))\n", sb.String())
	// read a balanced s-expression
	depth, inStr := 0, false
	var o strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return ""
		}
		o.WriteByte(b)
		if b == '"' {
			inStr = !inStr
		}
		if !inStr {
			if b == '(' {
				depth++
			}
			if b == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
	}
	r := strings.TrimSpace(o.String())
	if strings.HasPrefix(r, "(error") {
		return ""
	}
	// ((term value)): the value is the last s-expression
	r = strings.TrimSuffix(strings.TrimSpace(strings.TrimSuffix(r, "))")), " ")
	return lastSexp(r)
}

func lastSexp(r string) string {
	r = strings.TrimSpace(r)
	if strings.HasSuffix(r, "\"") {
		// scan back for the opening quote, honouring ""
		i := len(r) - 2
		for i >= 0 {
			if r[i] == '"' {
				if i > 0 && r[i-1] == '"' {
					i -= 2
					continue
				}
				return r[i:]
			}
			i--
		}
		return r
	}
	if strings.HasSuffix(r, ")") {
		d := 0
		for i := len(r) - 1; i >= 0; i-- {
			if r[i] == ')' {
				d++
			}
			if r[i] == '(' {
				d--
				if d == 0 {
					return r[i:]
				}
			}
		}
	}
	if i := strings.LastIndexAny(r, " \n\t"); i >= 0 {
		return r[i+1:]
	}
	return r
}

func parseInt(s string) *big.Int {
	s = strings.TrimSpace(s)
	neg := false
	if strings.HasPrefix(s, "(-") {
		neg = true
		s = strings.TrimSpace(strings.Trim(s[2:], "() "))
	}
	n := new(big.Int)
	switch {
	case strings.HasPrefix(s, "#x"):
		n.SetString(s[2:], 16)
	case strings.HasPrefix(s, "#b"):
		n.SetString(s[2:], 2)
	case s == "":
	default:
		n.SetString(s, 10)
	}
	if neg {
		n.Neg(n)
	}
	return n
}

func parseStr(s string) string {
	s = strings.TrimSuffix(strings.TrimPrefix(s, "\""), "\"")
	s = strings.ReplaceAll(s, "\"\"", "\"")
	var sb strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "\\u{") {
			j := strings.IndexByte(s[i:], '}')
			n, _ := strconv.ParseUint(s[i+3:i+j], 16, 32)
			sb.WriteByte(byte(n))
			i += j + 1
			continue
		}
		sb.WriteByte(s[i])
		i++
	}
	return sb.String()
}

// concretise builds a replayable description of a value in the session's model.
func (e *Exec) concretise(s *session, v Val, t types.Type, depth int) any {
	if depth > 8 || s.dead {
		return nil
	}
	st := &State{guard: True(), mem: map[string]*Term{}, alloc: IntT(objAlloc0)}
	switch x := v.(type) {
	case *StructV:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			m := map[string]any{}
			for i := range x.F {
				m[u.Field(i).Name()] = e.concretise(s, x.F[i], u.Field(i).Type(), depth+1)
			}
			return m
		case *types.Array:
			var l []any
			for i := range x.F {
				l = append(l, e.concretise(s, x.F[i], u.Elem(), depth+1))
			}
			return l
		}
	case *Term:
		if _, op := isOpaqueScalar(t); op {
			return map[string]any{"$time": parseInt(s.get(x)).String()}
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				return s.get(x) == "true"
			case u.Info()&types.IsString != 0:
				n := parseInt(s.get(StrLen(x)))
				if n.Cmp(big.NewInt(4096)) > 0 {
					return ""
				}
				return map[string]any{"$bytes": hex.EncodeToString([]byte(parseStr(s.get(x))))}
			default:
				return map[string]any{"$int": parseInt(s.get(x)).String()}
			}
		case *types.Slice:
			n := parseInt(s.get(Sel("s_len", x))).Int64()
			if s.get(Eq(Sel("s_base", x), NilAddr())) == "true" {
				return nil
			}
			if n > 12 {
				n = 12
			}
			if isByteElem(u.Elem()) {
				return map[string]any{"$bytes": hex.EncodeToString([]byte(parseStr(s.get(e.bytesOf(st, x)))))}
			}
			l := []any{}
			for i := int64(0); i < n; i++ {
				ev := e.load(st, sliceElt(x, IntT(i)), u.Elem())
				l = append(l, e.concretise(s, ev, u.Elem(), depth+1))
			}
			return l
		case *types.Pointer:
			if s.get(Eq(x, NilAddr())) == "true" {
				return nil
			}
			if _, ok := u.Elem().Underlying().(*types.Struct); !ok {
				if _, ok := scalarSort(u.Elem()); !ok {
					return map[string]any{"$opaque": true}
				}
			}
			ev := e.load(st, x, u.Elem())
			return map[string]any{"$ref": s.get(x), "$val": e.concretise(s, ev, u.Elem(), depth+1)}
		case *types.Map:
			return map[string]any{"$map": true}
		case *types.Array:
			return map[string]any{"$bytes": hex.EncodeToString([]byte(parseStr(s.get(x))))}
		case *types.Interface:
			if s.get(Eq(Sel("i_tag", x), IntT(0))) == "true" {
				return nil
			}
			return map[string]any{"$opaque": true}
		}
	}
	return map[string]any{"$opaque": true}
}

func (e *Exec) models(res *Result) {
	n := 0
	for _, o := range e.obls {
		if o.Result == "proved" || n >= 4 {
			continue
		}
		n++
		func() {
			defer func() { recover() }()
			// prefer small inputs
			facts := relevant(e.facts[:o.NFacts], o.Goal, 30)
			small := append([]*Term{}, facts...)
			for _, in := range e.inputs {
				small = append(small, smallness(in.V)...)
			}
			mi := ModelInput{Obligation: o.Label, Inputs: map[string]any{}}
			for k, fs := range [][]*Term{small, facts} {
				as := append(append([]*Term{}, fs...), Not(o.Goal))
				keepSyms = map[string]bool{}
				for _, in := range e.inputs {
					for _, l := range flatten(in.V) {
						c := &collector{count: map[*Term]int{}, syms: keepSyms}
						c.visit(l)
					}
				}
				for _, m := range e.mem0 {
					keepSyms[m.Name] = true
				}
				sc := "(set-option :produce-models true)\n(set-logic ALL)\n" + Script(as, nil) + "(check-sat)\n"
				keepSyms = map[string]bool{}
				s, r := newSession(sc, 8)
				if s == nil {
					continue
				}
				if r == "sat" || r == "unknown" && k == 1 {
					for _, in := range e.inputs {
						mi.Inputs[in.Name] = e.concretise(s, in.V, in.T, 0)
					}
					s.close()
					res.Models = append(res.Models, mi)
					return
				}
				s.close()
			}
		}()
	}
}

func smallness(v Val) []*Term {
	var out []*Term
	for _, t := range flatten(v) {
		switch t.Sort {
		case SSlice:
			out = append(out, Le(Sel("s_len", t), IntT(4)), Le(Sel("s_cap", t), IntT(8)))
		case SStr:
			out = append(out, Le(StrLen(t), IntT(8)))
		}
	}
	return out
}
