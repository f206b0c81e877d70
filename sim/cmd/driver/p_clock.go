package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"
	_ "time/tzdata"
)

// C12: the clock and the time zone.

func init() {
	properties["C12"] = &Property{
		gen: genC12, check: checkC12, quick: 45, thorough: 900,
		rule: "a case is a session under a simulated clock (any date from 1900 to 2150, any local time zone, jumping backward and forward between readings) that asks for the time, the date, the time zone and the time taken, sets the time zone, and converts times to vectors, text and back; it is non-trivial if a line whose answer is known exactly or to lie among the clock readings of that line was judged; distinct by the clock and the lines",
	}
}

var zones = []string{"UTC", "Europe/London", "America/New_York", "Australia/Sydney", "Asia/Kolkata", "Asia/Kathmandu", "America/St_Johns", "Pacific/Chatham", "America/Los_Angeles", "Africa/Cairo", "Asia/Tokyo", "America/Sao_Paulo", "Pacific/Apia", "Europe/Dublin", "Australia/Lord_Howe", "Atlantic/Azores"}

// genSecs returns a time in nanoseconds that is near something interesting.
func genSecs(r *RNG) int64 {
	var t int64
	switch r.n(6) {
	case 0: // around 1970
		t = int64(r.n(400000)) - 200000
	case 1, 2, 3: // recent
		t = 1500000000 + int64(r.n(500000000))
	case 4: // 1900 to 2150
		t = -2208988800 + int64(r.u64()%uint64(7889238000))
	case 5: // around a leap day or a year's end
		y := r.rng(1950, 2100)
		t = time.Date(y, time.Month(r.pickInt(1, 3, 12)), 1, 0, 0, 0, 0, time.UTC).Unix() + int64(r.n(200000)) - 100000
	}
	ns := int64(0)
	switch r.n(4) {
	case 0:
		ns = int64(r.n(1000)) * 1e6
	case 1:
		ns = int64(r.n(1000000)) * 1e3
	case 2:
		ns = int64(r.n(1000000000))
	}
	return t*1e9 + ns
}

func (r *RNG) pickInt(x ...int) int { return x[r.n(len(x))] }

func decimal(ns int64) string {
	sign := ""
	if ns < 0 {
		sign = "-"
		ns = -ns
	}
	s := fmt.Sprintf("%s%d.%09d", sign, ns/1e9, ns%1e9)
	return strings.TrimSuffix(strings.TrimRight(s, "0"), ".")
}

func genC12(r *RNG) *Case {
	c := &Case{Kind: r.pick("now", "now", "fixed", "fixed", "cpu", "mixed", "mixed"), Procs: r.rng(1, 3), Sched: Sched{Strategy: "default"}, SeamSeed: r.u64() >> 12}
	c.Clock.Wall = genSecs(r)
	if c.Clock.Wall == 0 {
		c.Clock.Wall = 1
	}
	c.Clock.Tick = []int64{1, 1000, 1e6, 1e9, 61e9, 3600e9}[r.n(6)]
	c.Clock.TZ = zones[r.n(len(zones))]
	for i := r.n(5); i > 0; i-- {
		d := int64(r.n(2000000)-1000000) * []int64{1000, 1e6, 1e9, 30e9}[r.n(4)]
		c.Clock.Jumps = append(c.Clock.Jumps, Jump{Call: int64(r.rng(1, 80)), Delta: d})
	}
	for i := r.rng(3, 25); i > 0; i-- {
		k := c.Kind
		if k == "mixed" {
			k = r.pick("now", "fixed", "cpu", "zone")
		} else if r.p(1, 6) {
			k = "zone"
		}
		switch k {
		case "now":
			c.Lines = append(c.Lines, r.pick("'%.6f' text sys 'sec'", "'%.6f' text sys 'now'", "'%.6f' text sys 'time'", "sys 'date'", ")timezone", "'%.6f' text 'T' decode sys 'time'", "'%.6f' text 'T' encode sys 'sec'", "'T' text sys 'sec'", "x = sys 'time'; '%.6f' text (x), 'T' decode x"))
		case "zone":
			c.Lines = append(c.Lines, fmt.Sprintf(")timezone %q", r.pick(zones[r.n(len(zones))], zones[r.n(len(zones))], "GMT", "Nowhere/Atall")))
		case "cpu":
			c.Lines = append(c.Lines, r.pick("'%.9f' text sys 'cpu'", ")cpu", "+/iota 100", "sys 'sec'", "x = 3", "1 +", ")timezone", "sys 'date'; sys 'date'"))
		default:
			t := genSecs(r)
			switch r.n(5) {
			case 0:
				c.Lines = append(c.Lines, "'%.9f' text 'T' encode "+decimal(t))
			case 1:
				c.Lines = append(c.Lines, r.pick("'T' text ", "'%T' text ")+decimal(t))
			case 2:
				u := time.Unix(0, t).UTC()
				off := (r.n(2*14*4+1) - 14*4) * 900
				s := decimal(int64(u.Second())*1e9 + int64(u.Nanosecond()))
				c.Lines = append(c.Lines, fmt.Sprintf("'%%.9f' text 'T' decode %d %d %d %d %d %s %d", u.Year(), u.Month(), u.Day(), u.Hour(), u.Minute(), s, off))
			case 3:
				u := time.Unix(0, t).UTC()
				s := decimal(int64(u.Second())*1e9 + int64(u.Nanosecond()))
				f := []string{fmt.Sprint(u.Year()), fmt.Sprint(int(u.Month())), fmt.Sprint(u.Day()), fmt.Sprint(u.Hour()), fmt.Sprint(u.Minute()), s}
				c.Lines = append(c.Lines, "'%.9f' text 'T' decode "+strings.Join(f[:r.rng(1, 6)], " "))
			case 4:
				c.Lines = append(c.Lines, "'%.9f' text 'T' decode 'T' encode "+decimal(t))
			}
		}
	}
	return c
}

var (
	encRE  = regexp.MustCompile(`^'%\.9f' text 'T' encode (-?[0-9.]+)$`)
	rtRE   = regexp.MustCompile(`^'%\.9f' text 'T' decode 'T' encode (-?[0-9.]+)$`)
	textRE = regexp.MustCompile(`^'%?T' text (-?[0-9.]+)$`)
	decRE  = regexp.MustCompile(`^'%\.9f' text 'T' decode ([-0-9. ]+)$`)
	zoneRE = regexp.MustCompile(`^\)timezone "(.*)"$`)
	durRE  = regexp.MustCompile(`^(?:(\d+)m(\d+)s|([0-9.]+)(s|ms|µs))$`)
)

func parseNS(s string) int64 {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	w, f, _ := strings.Cut(s, ".")
	a, _ := strconv.ParseInt(w, 10, 64)
	b, _ := strconv.ParseInt((f + "000000000")[:9], 10, 64)
	t := a*1e9 + b
	if neg {
		t = -t
	}
	return t
}

// parseDur reads a duration printed by )cpu; the error is at most err.
func parseDur(s string) (d, err float64, ok bool) {
	m := durRE.FindStringSubmatch(s)
	if m == nil {
		return 0, 0, false
	}
	if m[1] != "" {
		a, _ := strconv.ParseFloat(m[1], 64)
		b, _ := strconv.ParseFloat(m[2], 64)
		return a*60 + b, 1, true
	}
	a, _ := strconv.ParseFloat(m[3], 64)
	u := map[string]float64{"s": 1, "ms": 1e-3, "µs": 1e-6}[m[4]]
	return a * u, u / 1000, true
}

func floats(s string) []float64 {
	var l []float64
	for _, f := range strings.Fields(s) {
		x, err := strconv.ParseFloat(f, 64)
		if err != nil {
			return nil
		}
		l = append(l, x)
	}
	return l
}

// The time in seconds is not exact to the nanosecond.
var slack = []time.Duration{0, -time.Microsecond, time.Microsecond}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func near(a, b float64) bool { return math.Abs(a-b) <= 2e-6 }

// A zone is the time zone in force.
type zone struct {
	loc *time.Location
	set string // what the user called it
}

// offAt returns the offset at t, and whether it is the same for a day and a
// bit around it.
func (z zone) offAt(t time.Time) (int, bool) {
	_, o := t.In(z.loc).Zone()
	_, a := t.Add(-27 * time.Hour).In(z.loc).Zone()
	_, b := t.Add(27 * time.Hour).In(z.loc).Zone()
	return o, a == o && b == o
}

// vec reports whether v is the time vector for t.
func (z zone) vec(v []float64, t time.Time, tol float64) bool {
	if len(v) != 7 {
		return false
	}
	// The zone offset is rounded to the second; the rest follows from it.
	o, _ := z.offAt(t)
	u := t.In(time.FixedZone("", o))
	y, m, d := u.Date()
	want := []float64{float64(y), float64(m), float64(d), float64(u.Hour()), float64(u.Minute()), float64(u.Second()) + float64(u.Nanosecond())/1e9, float64(o)}
	for i := range want {
		if math.Abs(v[i]-want[i]) > tol {
			return false
		}
	}
	return true
}

func (z zone) date(t time.Time) string {
	if z.set == "" {
		return t.In(z.loc).Format(time.UnixDate)
	}
	o, _ := z.offAt(t)
	return t.In(time.FixedZone(z.set, o)).Format(time.UnixDate)
}

func checkC12(e *Env, c *Case) *Violation {
	s := c.spec(c.Lines)
	got := e.run(s)
	if got == nil {
		return nil
	}
	if bad(got) {
		return badViol("asking for the time", got)
	}
	loc, err := time.LoadLocation(c.Clock.TZ)
	if err != nil {
		e.err = fmt.Errorf("%w: %v", errInfra, err)
		return nil
	}
	z := zone{loc: loc}
	outs, wins := byLineWindows(got, c.Lines)
	if len(outs) != len(c.Lines)+1 {
		return viol("ended", "the session ends after %d lines of %d: %s", len(outs)-1, len(c.Lines), clip(got.Stderr, 300))
	}
	e.key = fmt.Sprint(c.Clock, c.Lines)
	var lastFrom, lastTo int64 // when the last evaluation ran
	evaluated := false
	for i, line := range c.Lines {
		o, w := outs[i+1], wins[i+1]
		out := strings.TrimSpace(o.Out)
		var at []time.Time
		for _, r := range got.Readings[w.from.Clk:w.to.Clk] {
			at = append(at, time.Unix(0, r))
		}
		some := func(f func(t time.Time) bool) bool {
			for _, t := range at {
				if f(t) {
					return true
				}
			}
			return false
		}
		wrong := func(why string) *Violation {
			var l []string
			for _, t := range at {
				l = append(l, t.UTC().Format("2006-01-02 15:04:05.000000000"))
			}
			return viol("wrong", "%q in the time zone %s (%q) prints %q, errors %q: %s; the clock was read at %v", line, z.loc, z.set, out, strings.TrimSpace(o.Err), why, clip(fmt.Sprint(l), 600))
		}
		isEval := !strings.HasPrefix(line, ")")
		judged := true
		v := floats(out)
		if m := zoneRE.FindStringSubmatch(line); m != nil {
			name := m[1]
			if name == "GMT" {
				name = "UTC"
			}
			l, err := time.LoadLocation(name)
			if err != nil {
				if o.Err == "" {
					return wrong("there is no such place")
				}
			} else {
				if o.Err != "" {
					return wrong("there is such a place")
				}
				z = zone{loc: l, set: m[1]}
			}
		} else if o.Err != "" && line != "1 +" {
			return wrong("this should not fail")
		} else if m := encRE.FindStringSubmatch(line); m != nil {
			t := time.Unix(0, parseNS(m[1]))
			if !z.vec(v, t, 0.6e-9) {
				return wrong(fmt.Sprintf("it is the time %v", z.date(t)))
			}
		} else if m := rtRE.FindStringSubmatch(line); m != nil {
			if abs(parseNS(out)-parseNS(m[1])) > 1 {
				return wrong("a time to a vector and back is not the same time")
			}
		} else if m := textRE.FindStringSubmatch(line); m != nil {
			t := time.Unix(0, parseNS(m[1]))
			if want := z.date(t); squeeze(out) != squeeze(want) {
				return wrong(fmt.Sprintf("it should be %q", want))
			}
		} else if m := decRE.FindStringSubmatch(line); m != nil {
			f := strings.Fields(m[1])
			n := []int{0, 1, 1, 0, 0}
			ns := int64(0)
			for j := range f {
				switch {
				case j < 5:
					n[j], _ = strconv.Atoi(f[j])
				case j == 5:
					ns = parseNS(f[j])
				}
			}
			l := z.loc
			exact := true
			if len(f) == 7 {
				off, _ := strconv.Atoi(f[6])
				l = time.FixedZone("", off)
			} else {
				_, exact = z.offAt(time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], 0, 0, time.UTC))
			}
			want := time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], 0, 0, l)
			if exact {
				if x := want.UnixNano() + ns; abs(parseNS(out)-x) > 1 {
					return wrong("it should be " + decimal(x))
				}
			} else {
				judged = false
				e.probe("near-transition")
			}
		} else {
			switch line {
			case "'%.6f' text sys 'sec'", "'%.6f' text sys 'now'", "'%.6f' text 'T' decode sys 'time'":
				if len(v) != 1 || !some(func(t time.Time) bool { return near(v[0], float64(t.UnixNano())/1e9) }) {
					return wrong("the clock never read that")
				}
			case "'%.6f' text sys 'time'", "'%.6f' text 'T' encode sys 'sec'", "x = sys 'time'; '%.6f' text (x), 'T' decode x":
				if len(v) == 8 {
					sec := v[7]
					v = v[:7]
					if !some(func(t time.Time) bool { return near(sec, float64(t.UnixNano())/1e9) }) {
						return wrong("the clock never read that")
					}
				}
				// The offset can come from one reading and the rest from the
				// next.
				if len(v) != 7 || !some(func(t time.Time) bool {
					return some(func(u time.Time) bool {
						off, _ := z.offAt(u)
						if off != int(v[6]) {
							return false
						}
						z := zone{loc: time.FixedZone("", off)}
						for _, d := range slack {
							if z.vec(v, t.Add(d), 2e-6) {
								return true
							}
						}
						return false
					})
				}) {
					return wrong("the clock never read that")
				}
			case "sys 'date'", "'T' text sys 'sec'":
				if !some(func(t time.Time) bool {
					return some(func(u time.Time) bool {
						name, off := u.In(z.loc).Zone()
						if z.set != "" {
							name = z.set
						}
						for _, d := range slack {
							if squeeze(t.Add(d).In(time.FixedZone(name, off)).Format(time.UnixDate)) == squeeze(out) {
								return true
							}
						}
						return false
					})
				}) {
					return wrong("the clock never read that")
				}
			case ")timezone":
				f := strings.Fields(out)
				if len(f) != 2 || !some(func(t time.Time) bool { n, _ := z.offAt(t); return fmt.Sprint(n) == f[1] }) {
					return wrong("that was not the offset")
				}
				at = []time.Time{time.Unix(0, c.Clock.Wall)} // The name is from when it was first needed.
				for _, r := range got.Readings[:w.to.Clk] {
					at = append(at, time.Unix(0, r))
				}
				if z.set != "" && f[0] != z.set || z.set == "" && !some(func(t time.Time) bool { n, _ := t.In(z.loc).Zone(); return n == f[0] }) {
					return wrong("that was not the time zone")
				}
			case "'%.9f' text sys 'cpu'", ")cpu":
				var tol float64 = 2e-9
				if line == ")cpu" {
					v = nil
					tol = 0
					for _, f := range strings.FieldsFunc(out, func(r rune) bool { return strings.ContainsRune(" (),", r) }) {
						if d, er, ok := parseDur(f); ok {
							v = append(v, d)
							tol = max(tol, er)
						}
					}
				}
				if len(v) != 3 && !(line == ")cpu" && len(v) == 1) {
					return wrong("that is not a real, a user and a system time")
				}
				if !evaluated {
					judged = false
					break
				}
				most := float64(lastTo-lastFrom) / 1e9
				for _, x := range v {
					if x < -tol || x > most+tol {
						return wrong(fmt.Sprintf("the last evaluation took at most %.9f seconds", most))
					}
				}
				// Reading the clock twice takes time.
				if least := float64(c.Clock.Tick) / 1e9; v[0] < least-tol {
					return wrong(fmt.Sprintf("the last evaluation took at least %.9f seconds", least))
				}
				e.probe("cpu")
			default:
				judged = false
			}
		}
		if judged {
			e.nontrivial = true
			e.probe("judged")
		}
		if isEval && o.Err == "" {
			evaluated = true
			lastFrom, lastTo = w.from.Mono, w.to.Mono
		}
	}
	// With another clock, what is not about the present is the same.
	t := c.spec(c.Lines)
	t.Clock.Wall += 86400e9 * 100
	t.Clock.Jumps = nil
	fixed := func(l string) bool {
		return encRE.MatchString(l) || rtRE.MatchString(l) || textRE.MatchString(l) || decRE.MatchString(l)
	}
	any := false
	for _, l := range c.Lines {
		any = any || fixed(l)
	}
	if !any {
		return nil
	}
	r2 := e.run(t)
	if r2 == nil || bad(r2) {
		return nil
	}
	for i, o := range byLine(r2, c.Lines) {
		if i > 0 && fixed(c.Lines[i-1]) && o != outs[i] {
			if m := decRE.FindStringSubmatch(c.Lines[i-1]); m != nil && len(strings.Fields(m[1])) < 7 {
				continue // An hour that is skipped or comes twice.
			}
			return viol("present", "%q prints %q at one time and %q at another", c.Lines[i-1], outs[i].Out, o.Out)
		}
	}
	return nil
}
