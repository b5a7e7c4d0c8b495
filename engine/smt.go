package main

// One z3 process per worker, spoken to over a pipe in SMT-LIB.  Everything a
// path declares lives inside one push/pop scope.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Sat int

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defs    map[int]bool
	decls   map[string]bool
	timeout int // ms
	queries int
	unknown int
	spent   time.Duration
	log     *os.File
	bin     string
	asserts []*Term
	dead    bool
}

func NewSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if f := os.Getenv("ENGINE_SMTLOG"); f != "" && s.log == nil {
		s.log, _ = os.Create(fmt.Sprintf("%s.%d", f, s.cmd.Process.Pid))
	}
}

// preamble starts one query.  Every query is sent whole after a (reset): z3's
// one-shot preprocessing is far stronger than its incremental mode on these.
func (s *Solver) preamble() {
	s.send("(reset)\n(set-option :produce-models true)\n(set-option :model.completion true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-logic QF_UFBV)\n", s.timeout))
	s.send("(define-fun hexd ((x (_ BitVec 4))) (_ BitVec 8) (ite (bvult x #xa) (bvadd #x30 (concat #x0 x)) (bvadd #x57 (concat #x0 x))))\n")
	s.defs = map[int]bool{}
	s.decls = map[string]bool{}
}

func (s *Solver) Close() {
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		s.log.WriteString(x)
	}
}

func (s *Solver) BeginPath() { s.asserts = nil }

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSmt(t *Term) string {
	if t.w == 0 {
		if t.u == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		h := t.Big().Text(16)
		return "#x" + strings.Repeat("0", t.w/4-len(h)) + h
	}
	h := t.Big().Text(2)
	return "#b" + strings.Repeat("0", t.w-len(h)) + h
}

func symName(n string) string { return "|" + n + "|" }

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constSmt(t)
	case OVar:
		return symName(t.s)
	}
	return fmt.Sprintf("t%d", t.id)
}

// define makes t available to the solver (iteratively, terms may be deep).
func (s *Solver) define(t *Term) {
	type fr struct {
		t *Term
		i int
	}
	if t.op == OConst || s.defs[t.id] {
		return
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || s.defs[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.a) {
			f.i++
			st = append(st, fr{f.t.a[f.i-1], 0})
			continue
		}
		s.emit(f.t)
		s.defs[f.t.id] = true
		st = st[:len(st)-1]
	}
}

func (s *Solver) emit(t *Term) {
	var sb strings.Builder
	switch t.op {
	case OVar:
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", symName(t.s), sortOf(t.w))
		if t.mx != nil && t.w > 0 && (t.mx.Cmp(bigMask(t.w)) < 0 || t.mn.Sign() > 0) {
			fmt.Fprintf(&sb, "(assert (and (bvule %s %s) (bvule %s %s)))\n", symName(t.s), constSmt(&Term{op: OConst, w: t.w, b: t.mx}),
				constSmt(&Term{op: OConst, w: t.w, b: t.mn}), symName(t.s))
		}
		s.send(sb.String())
		return
	case OUF:
		if len(t.a) == 0 {
			fmt.Fprintf(&sb, "(declare-fun t%d () %s)\n", t.id, sortOf(t.w))
		} else {
			nm := symName(t.s)
			if !s.decls[t.s] {
				s.decls[t.s] = true
				fmt.Fprintf(&sb, "(declare-fun %s (", nm)
				for _, a := range t.a {
					sb.WriteString(sortOf(a.w) + " ")
				}
				fmt.Fprintf(&sb, ") %s)\n", sortOf(t.w))
				if injective[ufFamily(t.s)] {
					for i, a := range t.a {
						fmt.Fprintf(&sb, "(declare-fun |%s inv%d| (%s) %s)\n", t.s, i, sortOf(t.w), sortOf(a.w))
					}
				}
			}
			fmt.Fprintf(&sb, "(define-fun t%d () %s (%s", t.id, sortOf(t.w), nm)
			for _, a := range t.a {
				sb.WriteString(" " + s.ref(a))
			}
			sb.WriteString("))\n")
			if injective[ufFamily(t.s)] {
				for i, a := range t.a {
					fmt.Fprintf(&sb, "(assert (= (|%s inv%d| t%d) %s))\n", t.s, i, t.id, s.ref(a))
				}
			}
		}
		fam := ufFamily(t.s)
		if fam != t.s { // length-indexed family: images are disjoint
			if !s.decls[fam+"!tag"] {
				s.decls[fam+"!tag"] = true
				fmt.Fprintf(&sb, "(declare-fun |%s!tag| (%s) (_ BitVec 16))\n", fam, sortOf(t.w))
			}
			var n int
			fmt.Sscanf(t.s[len(fam)+1:], "%d", &n)
			fmt.Fprintf(&sb, "(assert (= (|%s!tag| t%d) (_ bv%d 16)))\n", fam, t.id, n)
		}
		if b, ok := ufBounds[fam]; ok && !allConst(t.a) {
			fmt.Fprintf(&sb, "(assert (and (bvule t%d %s) (bvule %s t%d)))\n", t.id, constSmt(&Term{op: OConst, w: t.w, b: b[1]}),
				constSmt(&Term{op: OConst, w: t.w, b: b[0]}), t.id)
		}
		s.send(sb.String())
		return
	}
	fmt.Fprintf(&sb, "(define-fun t%d () %s ", t.id, sortOf(t.w))
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.hi, t.lo, s.ref(t.a[0]))
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.a[0].w, s.ref(t.a[0]))
	case OHexd:
		fmt.Fprintf(&sb, "(hexd %s)", s.ref(t.a[0]))
	case OJnum: // opaque token; its byte value is never inspected
		fmt.Fprintf(&sb, "#x3f")
	default:
		sb.WriteString("(" + opSmt[t.op])
		for _, a := range t.a {
			sb.WriteString(" " + s.ref(a))
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
	s.send(sb.String())
}

func (s *Solver) Assert(t *Term) {
	if t.isTrue() {
		return
	}
	s.asserts = append(s.asserts, t)
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			panic("solver died: " + err.Error() + " " + l)
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			s.dead = true
			panic("solver error: " + l)
		}
		return l
	}
}

// Check decides path-condition /\ extra.  With model set and the result sat,
// the values of vars are returned.
func (s *Solver) Check(extra *Term, model []*Term) (Sat, map[int]*big.Int) {
	if extra != nil && extra.isFalse() {
		return Unsat, nil
	}
	t0 := time.Now()
	s.preamble()
	for _, a := range s.asserts {
		s.define(a)
		s.send("(assert " + s.ref(a) + ")\n")
	}
	if extra != nil {
		s.define(extra)
		if !extra.isTrue() {
			s.send("(assert " + s.ref(extra) + ")\n")
		}
	}
	for _, m := range model {
		s.define(m)
	}
	if strings.HasPrefix(s.bin, "z3") {
		s.send("(check-sat-using (then simplify propagate-values solve-eqs smt))\n")
	} else {
		s.send("(check-sat)\n")
	}
	s.in.Flush()
	r := s.readLine()
	s.queries++
	res := Unknown
	var mv map[int]*big.Int
	switch r {
	case "sat":
		res = SatYes
		if len(model) > 0 {
			mv = map[int]*big.Int{}
			for _, m := range model {
				if m.isConst() {
					mv[m.id] = m.Big()
					continue
				}
				s.send("(get-value (" + s.ref(m) + "))\n")
				s.in.Flush()
				mv[m.id] = s.readValue()
			}
		}
	case "unsat":
		res = Unsat
	default:
		s.unknown++
	}
	s.spent += time.Since(t0)
	if s.log != nil {
		x := ""
		if extra != nil {
			x = extra.str(9)
		}
		fmt.Fprintf(s.log, "; %s %.3fs %d %s\n", r, time.Since(t0).Seconds(), len(s.asserts), x)
	}
	return res, mv
}

func (s *Solver) readValue() *big.Int {
	// ((expr value)) ; value is the last token, may span lines
	var sb strings.Builder
	depth := 0
	for {
		l := s.readLine()
		sb.WriteString(l + " ")
		inBar := false
		depth = 0
		for _, ch := range sb.String() {
			if ch == '|' {
				inBar = !inBar
			}
			if inBar {
				continue
			}
			if ch == '(' {
				depth++
			} else if ch == ')' {
				depth--
			}
		}
		if depth == 0 {
			break
		}
	}
	v := strings.TrimSpace(sb.String())
	v = strings.TrimRight(v, ") ")
	i := strings.LastIndexAny(v, " ")
	tok := v[i+1:]
	switch {
	case tok == "true":
		return big.NewInt(1)
	case tok == "false":
		return big.NewInt(0)
	case strings.HasPrefix(tok, "#x"):
		r, _ := new(big.Int).SetString(tok[2:], 16)
		return r
	case strings.HasPrefix(tok, "#b"):
		r, _ := new(big.Int).SetString(tok[2:], 2)
		return r
	}
	panic("bad solver value: " + v)
}

func allConst(a []*Term) bool {
	for _, x := range a {
		if !x.isConst() {
			return false
		}
	}
	return true
}
