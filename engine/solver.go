package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	w        *bufio.Writer
	out      *bufio.Reader
	emitted  map[int32]bool
	ts       *Terms
	queries  int64
	sat      int64
	unsat    int64
	unknown  int64
	dur      time.Duration
	bin      string
	timeout  int // ms
	nemitted int
	ufs      map[string]bool
	maxDur   time.Duration
}

func newSolver(ts *Terms, timeoutMs int) *Solver {
	s := &Solver{ts: ts, timeout: timeoutMs, bin: "z3-new"}
	if _, err := exec.LookPath(s.bin); err != nil {
		s.bin = "z3"
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fatal("solver: %v", err)
	}
	if f := os.Getenv("GOSYM_TRANSCRIPT"); f != "" {
		fh, _ := os.CreateTemp(f, "z3-*.smt2")
		in = &teeW{in, fh}
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.w = bufio.NewWriterSize(in, 1<<16)
	s.emitted = map[int32]bool{}
	s.ufs = map[string]bool{}
	s.nemitted = 0
	fmt.Fprintf(s.w, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout)
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) emit(t *Term) {
	if t.op == OConst || s.emitted[t.id] {
		return
	}
	// iterative post-order to keep recursion bounded
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if s.emitted[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && !s.emitted[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		s.emitted[x.id] = true
		s.nemitted++
		if x.op == OVar {
			fmt.Fprintf(s.w, "(declare-const %s %s)\n", x.ref(), sortName(x.w))
			// static range is part of the declaration
			if x.w > 0 && (x.lo > 0 || x.hi < mask(x.w)) {
				fmt.Fprintf(s.w, "(define-fun r%d () Bool (and (bvule %s %s) (bvule %s %s)))\n", x.val,
					(&Term{op: OConst, w: x.w, val: x.lo}).ref(), x.ref(), x.ref(), (&Term{op: OConst, w: x.w, val: x.hi}).ref())
			}
		} else {
			if x.op == OUF {
				n := x.ufName()
				if !s.ufs[n] {
					s.ufs[n] = true
					var args []string
					for _, a := range x.args {
						args = append(args, sortName(a.w))
					}
					fmt.Fprintf(s.w, "(declare-fun uf_%s (%s) %s)\n", n, strings.Join(args, " "), sortName(x.w))
				}
			}
			fmt.Fprintf(s.w, "(define-fun t%d () %s %s)\n", x.id, sortName(x.w), x.body())
		}
		st = st[:len(st)-1]
	}
}

type Res int

const (
	rUnsat Res = iota
	rSat
	rUnknown
)

func hasRange(t *Term) bool { return t.w > 0 && (t.lo > 0 || t.hi < mask(t.w)) }

// check decides the conjunction; on sat it returns values for vars.
func (s *Solver) check(cs []*Term, vars []*Term) (Res, []uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.dur += d
		if d > s.maxDur {
			s.maxDur = d
		}
		if slowLog != "" && d > slowMs*time.Millisecond {
			var b strings.Builder
			fmt.Fprintf(&b, "; %v\n", d)
			dumpQuery(&b, cs)
			os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", slowLog, int(d.Milliseconds()), s.queries), []byte(b.String()), 0o644)
		}
	}()
	s.queries++
	if s.nemitted > 200000 {
		s.stop()
		s.start()
	}
	for _, c := range cs {
		s.emit(c)
	}
	for _, v := range vars {
		s.emit(v)
	}
	s.w.WriteString("(push)\n")
	for _, v := range vars {
		if hasRange(v) {
			fmt.Fprintf(s.w, "(assert r%d)\n", v.val)
		}
	}
	for _, c := range cs {
		fmt.Fprintf(s.w, "(assert %s)\n", c.ref())
	}
	s.w.WriteString("(check-sat)\n")
	if err := s.w.Flush(); err != nil {
		return s.died()
	}
	// the solver's own time limit is not always kept
	proc := s.cmd.Process
	guard := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*3/2+2*time.Second, func() { proc.Kill() })
	line, err := s.readLine()
	guard.Stop()
	if err != nil {
		return s.died()
	}
	var vals []uint64
	res := rUnknown
	switch line {
	case "sat":
		res = rSat
		s.sat++
		if len(vars) > 0 {
			s.w.WriteString("(get-value (")
			for _, v := range vars {
				s.w.WriteString(v.ref() + " ")
			}
			s.w.WriteString("))\n")
			s.w.Flush()
			txt, err := s.readSexp()
			if err != nil {
				return s.died()
			}
			vals, err = parseValues(txt, len(vars))
			if err != nil {
				fatal("solver value: %v in %q", err, txt)
			}
		}
	case "unsat":
		res = rUnsat
		s.unsat++
	default:
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", line)
			s.stop()
			s.start()
			s.unknown++
			return rUnknown, nil
		}
		s.unknown++
	}
	s.w.WriteString("(pop)\n")
	return res, vals
}

func (s *Solver) died() (Res, []uint64) {
	s.stop()
	s.start()
	s.unknown++
	return rUnknown, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(l) != "" {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string, n int) ([]uint64, error) {
	var vals []uint64
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i < len(f); i++ {
		x := f[i]
		if !strings.HasPrefix(x, "v") {
			return nil, fmt.Errorf("unexpected %q", x)
		}
		i++
		x = f[i]
		switch {
		case x == "true":
			vals = append(vals, 1)
		case x == "false":
			vals = append(vals, 0)
		case strings.HasPrefix(x, "#x"):
			u, err := strconv.ParseUint(x[2:], 16, 64)
			if err != nil {
				return nil, err
			}
			vals = append(vals, u)
		case strings.HasPrefix(x, "#b"):
			u, err := strconv.ParseUint(x[2:], 2, 64)
			if err != nil {
				return nil, err
			}
			vals = append(vals, u)
		case x == "_":
			u, err := strconv.ParseUint(f[i+1][2:], 10, 64)
			if err != nil {
				return nil, err
			}
			vals = append(vals, u)
			i += 2
		default:
			return nil, fmt.Errorf("unexpected value %q", x)
		}
	}
	if len(vals) != n {
		return nil, fmt.Errorf("got %d of %d values", len(vals), n)
	}
	return vals, nil
}

var slowLog = os.Getenv("GOSYM_SLOW")

func dumpQuery(b *strings.Builder, cs []*Term) {
	d := &Solver{emitted: map[int32]bool{}, ufs: map[string]bool{}, w: bufio.NewWriter(b)}
	vs := map[int32]bool{}
	for _, c := range cs {
		d.emit(c)
		var l []*Term
		c.collectVars(vs, &l)
		for _, v := range l {
			if hasRange(v) {
				fmt.Fprintf(d.w, "(assert r%d)\n", v.val)
			}
		}
		fmt.Fprintf(d.w, "(assert %s)\n", c.ref())
	}
	fmt.Fprintf(d.w, "(check-sat)\n")
	d.w.Flush()
}

var slowMs = func() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("GOSYM_SLOWMS")); err == nil {
		return time.Duration(n)
	}
	return 500
}()

type teeW struct {
	io.WriteCloser
	f *os.File
}

func (t *teeW) Write(b []byte) (int, error) { t.f.Write(b); return t.WriteCloser.Write(b) }
