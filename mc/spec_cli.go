package main

// C26: the command line. Each state is a file (or an argument) with its options; the program is executed on it.

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/twuillemin/modes/pkg/acas/ra"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
)

func cliPath() string { return os.Getenv("VERIF_CLI") }

var cliDirOnce sync.Once
var cliDir string

func runCLI(args ...string) (string, int) {
	cmd := exec.Command(cliPath(), args...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Dir = scratch()
	err := cmd.Run()
	code := 0
	if err != nil {
		code = 1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return out.String(), code
}

func scratch() string {
	cliDirOnce.Do(func() {
		cliDir = os.Getenv("VERIF_SCRATCH")
		if cliDir == "" {
			cliDir = os.TempDir()
		}
		cliDir = filepath.Join(cliDir, fmt.Sprintf("cli%d", os.Getpid()))
		os.MkdirAll(cliDir, 0o755)
	})
	return cliDir
}

// how options are written
var levelForms = []string{"--adsb_reader_level", "-adsb_reader_level"}

func levelArgs(level int, form int) []string {
	switch form {
	case 1:
		return []string{fmt.Sprintf("--adsb_reader_level=%d", level)}
	case 2:
		return []string{"-adsb_reader_level", fmt.Sprint(level)}
	}
	if level == 0 && form == 0 {
		return nil
	}
	return []string{"--adsb_reader_level", fmt.Sprint(level)}
}

var aloneCache = map[string]string{}

func alone(line string, level int) (string, int) {
	k := fmt.Sprintf("%d:%s", level, line)
	if v, ok := aloneCache[k]; ok {
		return v, 0
	}
	out, code := runCLI(append(levelArgs(level, 3), line)...)
	if code == 0 {
		aloneCache[k] = out
	}
	return out, code
}

// parts are the texts which the report of a line has to contain, in this order.
func reportParts(line string, level int) (want []string, bad []string) {
	want = []string{"Reading: " + line}
	d, err := hex.DecodeString(line)
	if err != nil {
		return want, []string{"-- Mode-S Information --"}
	}
	m, err := modesreader.ReadMessage(d)
	if err != nil {
		return append(want, err.Error()), []string{"-- Mode-S Information --"}
	}
	ad, err := modesreader.CheckCRC(m, d, nil, nil)
	if err != nil {
		return append(want, err.Error()), []string{"-- Mode-S Information --"}
	}
	df := int(d[0] >> 3)
	if df == 11 {
		want = append(want, "nterrogator: "+ad.ToString())
	} else {
		want = append(want, "From: "+ad.ToString())
	}
	want = append(want, m.ToString())
	switch {
	case df == 17, df == 18 && d[0]&7 < 2:
		a, err := adsbreader.ReadADSBMessage(adsbVersion(float64(level)), false, false, d[4:11])
		if err != nil {
			want = append(want, err.Error())
		} else {
			want = append(want, a.ToString())
		}
	case df == 16:
		if d[4] == 0x30 {
			r, err := ra.ReadResolutionAdvisory(d[5:11])
			if err != nil {
				want = append(want, err.Error())
			} else {
				want = append(want, r.ToString())
			}
		}
	case df == 20 || df == 21:
		l, err := commb.ReadCommBMessage(d[4:11])
		if err != nil {
			want = append(want, err.Error())
		}
		for _, x := range l {
			want = append(want, x.ToString())
		}
	}
	return want, nil
}

var _ common.ICAOAddress
var _ messages.ModeSMessage

func checkReport(line string, level int, out string) string {
	want, bad := reportParts(line, level)
	rest := out
	if !strings.HasPrefix(out, want[0]) {
		return fmt.Sprintf("report: the report of %q starts with %q", line, head(out))
	}
	for _, w := range want {
		i := strings.Index(rest, strings.TrimRight(w, " \n"))
		if i < 0 {
			return fmt.Sprintf("report: the report of %q (reader level %d) lacks %q; it is %q", line, level, w, out)
		}
		rest = rest[i+len(strings.TrimRight(w, " \n")):]
	}
	// no other content than the decoded one
	count := func(t string) int { return strings.Count("\n"+t, "\nMessage:") }
	if n := count(strings.Join(want, "\n")); len(bad) == 0 && count(out) != n {
		return fmt.Sprintf("report: the report of %q (reader level %d) has %d decoded contents, there are %d; it is %q", line, level, count(out), n, out)
	}
	for _, b := range bad {
		if strings.Contains(out, b) {
			return fmt.Sprintf("report: the report of the undecodable %q contains %q", line, b)
		}
	}
	return ""
}

func head(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// Args: level, form of the options; Text: the argument, or the file
func evalCLI(s *State, verbose bool) Outcome {
	var o Outcome
	level, form := int(s.Args[0]), int(s.Args[1])
	var out string
	var code int
	switch s.Op {
	case "cli-argument":
		out, code = runCLI(append(levelArgs(level, form), s.Text)...)
	case "cli-file", "cli-big":
		if s.Op == "cli-big" {
			s = &State{Op: s.Op, Args: s.Args, Text: bigFile(int(s.Args[2]), int(s.Args[3]))}
		}
		name := filepath.Join(scratch(), "lines.txt")
		if err := os.WriteFile(name, []byte(s.Text), 0o644); err != nil {
			o.Open = true
			return o
		}
		fa := [][]string{{"--file", name}, {"-file=" + name}, {"--file", "lines.txt"}, {"--file=lines.txt"}}[form%4]
		la := levelArgs(level, form)
		if form%2 == 1 {
			out, code = runCLI(append(append([]string{}, fa...), la...)...)
		} else {
			out, code = runCLI(append(append([]string{}, la...), fa...)...)
		}
	case "cli-window":
		return evalWindow(s, verbose)
	case "cli-level":
		out, code = runCLI(append(strings.Fields(s.Text), "8D4840D6202CC371C32CE0576098")...)
		if code == 0 {
			o.Problem = fmt.Sprintf("accepted: reader level %q is accepted", s.Text)
		} else if strings.Contains(out, "Mode-S Information") {
			o.Problem = fmt.Sprintf("accepted: a report is given for reader level %q", s.Text)
		}
		return o
	}
	o.Sig = hashState("", nil, nil, out)
	if verbose {
		o.Text = fmt.Sprintf("exit %d, output %q", code, head(out))
	}
	if code != 0 {
		o.Problem = fmt.Sprintf("exit: the program exits with %d", code)
		return o
	}
	if s.Op == "cli-argument" {
		o.Problem = checkReport(s.Text, level, out)
		return o
	}
	// as if each line were given alone
	lines := strings.Split(s.Text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	rest := out
	for i, l := range lines {
		l = strings.TrimSuffix(l, "\r")
		w, c := alone(l, level)
		if c != 0 {
			o.Problem = fmt.Sprintf("exit: the program exits with %d for the argument %q", c, l)
			return o
		}
		if !strings.HasPrefix(rest, w) {
			o.Problem = fmt.Sprintf("lines: report %d of the file, for %q, is %q; alone it is %q", i+1, head(l), head(rest), head(w))
			return o
		}
		rest = rest[len(w):]
	}
	if rest != "" {
		o.Problem = fmt.Sprintf("lines: after the report of the last line the output goes on with %q", head(rest))
	}
	return o
}

func cliLines() []string {
	h := func(d []byte) string { return strings.ToUpper(hex.EncodeToString(d)) }
	es := func(df byte, me string) string {
		m, _ := hex.DecodeString(me)
		return h(sealFrame(append(append([]byte{df, 0x48, 0x40, 0xD6}, m...), 0, 0, 0), 0))
	}
	long := func(df byte, body string, id uint32) string {
		m, _ := hex.DecodeString(body)
		return h(sealFrame(append(append([]byte{df << 3, 0x00, 0x05, 0x38}, m...), 0, 0, 0), id))
	}
	short := func(df byte, id uint32) string {
		return h(sealFrame([]byte{df<<3 | 5, 0x12, 0x05, 0x38, 0, 0, 0}, id))
	}
	damaged := []byte(es(0x8D, "202CC371C32CE0"))
	damaged[20] ^= 1
	return []string{
		es(0x8D, "202CC371C32CE0"),           // identification
		es(0x8D, "58C382D690C8AC"),           // airborne position: the layout depends on the reader level
		es(0x8D, "3AAB238733C8CD"),           // surface position
		es(0x8D, "EA42A864A53C08"),           // target state
		es(0x8D, "C0000000000000"),           // undefined type code
		string(damaged),                      // wrong parity
		es(0x90, "99440994083817"),           // velocity, rebroadcast
		long(20, "10030A80F50000", 0x4840D6), // register 1,0
		long(21, "FFFFFFFFFFFFFF", 0x4840D6), // no known register
		long(20, "00000000000000", 0x00ABCD), // register 0,0
		long(16, "30A80006012345", 0x4840D6), // advisory
		long(16, "58A80006012345", 0x4840D6), // another coordination
		short(11, 5), short(4, 0x4840D6), short(5, 0xABCDEF), short(0, 1),
		"", "8D4840D6202CC371C32CE057609", "hello", "8D4840D6", "FFFF00", strings.ToLower(es(0x8D, "202CC371C32CE0")),
		" " + es(0x8D, "202CC371C32CE0"), "%d%s%v", long(24, "10030A80F50000", 3), es(0x95, "202CC371C32CE0"), "38000000000000",
		es(0x8D, "E1064100000000"), es(0x8D, "F8000000004000"), es(0x8D, "00ABC000000000"), long(21, "80181110800420", 0x4840D6), long(20, "80110020018000", 0x10),
	}
}

// windowLines are the frames which differ from a base frame in some adjacent bits, with the right parity.
func windowLines(base []byte, lo, w int) []string {
	lines := make([]string, 0, 1<<uint(w))
	for v := uint64(0); v < 1<<uint(w); v++ {
		d := clone(base)
		setBits(d, lo, lo+w-1, v)
		id := uint32(0x4840D6)
		if d[0]>>3 == 17 || d[0]>>3 == 18 {
			id = 0
		} else if d[0]>>3 == 11 {
			id = uint32(v) & 0x7F
		}
		lines = append(lines, strings.ToUpper(hex.EncodeToString(sealFrame(d, id))))
	}
	return lines
}

// evalWindow runs the program on all these frames at once. Args: level, first bit, number of bits; Data: the base
func evalWindow(s *State, verbose bool) Outcome {
	var o Outcome
	level := int(s.Args[0])
	lines := windowLines(s.Data, int(s.Args[1]), int(s.Args[2]))
	name := filepath.Join(scratch(), "window.txt")
	if err := os.WriteFile(name, []byte(strings.Join(lines, "\n")), 0o644); err != nil {
		o.Open = true
		return o
	}
	out, code := runCLI("--file", name, fmt.Sprintf("--adsb_reader_level=%d", level))
	o.Sig = hashState("", nil, nil, out)
	if code != 0 {
		o.Problem = fmt.Sprintf("exit: the program exits with %d", code)
		return o
	}
	reports := strings.Split("\n"+out, "\nReading: ")[1:]
	if len(reports) != len(lines) {
		o.Problem = fmt.Sprintf("lines: %d reports for %d lines", len(reports), len(lines))
		return o
	}
	for i, l := range lines {
		if p := checkReport(l, level, "Reading: "+reports[i]+"\n"); p != "" {
			o.Problem = p
			return o
		}
	}
	if verbose {
		o.Text = fmt.Sprintf("%d reports, the first is %q", len(reports), head(reports[0]))
	}
	return o
}

// windowBases are frames of every format with embedded content.
func windowBases() [][]byte {
	var r [][]byte
	for _, l := range cliLines() {
		if d, err := hex.DecodeString(l); err == nil && (len(d) == 7 || len(d) == 14) {
			r = append(r, d)
		}
	}
	return r
}

// bigFile has n lines of the alphabet in an order of its own.
func bigFile(n, step int) string {
	var sb strings.Builder
	lines := cliLines()
	for i := 0; i < n; i++ {
		sb.WriteString(lines[(i*step+i/len(lines))%len(lines)] + "\n")
	}
	return sb.String()
}

func exploreCLI(c *Ctx) {
	if cliPath() == "" {
		c.expired = true
		return
	}
	defer func() { os.RemoveAll(scratch()) }()
	lines := cliLines()
	for level := 0.0; level < 3; level++ {
		for f := 0.0; f < 4; f++ {
			for _, l := range lines {
				c.StepText("cli-argument", l, level, f)
				c.StepText("cli-file", l+"\n", level, f)
				c.StepText("cli-file", l, level, f)
				c.StepText("cli-file", l+"\r\n", level, f)
				c.StepText("cli-file", lines[0]+"\r\n"+l+"\r\n"+lines[1], level, f)
			}
			c.StepText("cli-file", "", level, f)
			c.StepText("cli-file", "\n\n\n", level, f)
		}
		// all pairs, then all triples
		for _, a := range lines {
			for _, b := range lines {
				c.StepText("cli-file", a+"\n"+b+"\n", level, 0)
				c.StepText("cli-file", a+"\n"+b+"\n"+a+"\n", level, 2)
				if c.thorough {
					c.StepText("cli-file", a+"\r\n"+b, level, 1)
				}
			}
			if c.Stop() {
				return
			}
		}
		n := c.pick(9, len(lines))
		st := c.pick(3, 1)
		for i := 0; i < len(lines); i += st {
			for j := 1; j < len(lines); j += st {
				for k := 2; k < len(lines); k += st {
					c.StepText("cli-file", lines[i]+"\n"+lines[j]+"\n"+lines[k], level, float64((i+j+k)%4))
				}
			}
			if c.Stop() {
				return
			}
		}
		_ = n
		// lines with something around or inside the frame
		for f := 0.0; f < float64(c.pick(1, 4)) && (level == 0 || c.thorough); f++ {
			for _, l := range decorated(lines[:c.pick(2, 6)]) {
				c.StepText("cli-file", l+"\n", level, f)
				c.StepText("cli-file", l, level, f)
				c.StepText("cli-file", lines[1]+"\n"+l+"\n"+lines[0]+"\n", level, f)
			}
			if c.Stop() {
				return
			}
		}
		for _, n := range []float64{2339, 2340, 2500, 5000, 20000} {
			for _, step := range []float64{1, 3, 5} {
				c.Step("cli-big", nil, level, 0, n, step)
			}
		}
		// long lines and long files
		for _, n := range []int{100, 4095, 4096, 4097, 30000, 60000, 65534} {
			long := strings.Repeat("8D", n/2)
			c.StepText("cli-file", lines[0]+"\n"+long+"\n"+lines[1]+"\n", level, 0)
		}
		for _, n := range []int{10, 999, 1000, 1001, 2500} {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				l := lines[(i*7+i/11)%len(lines)]
				if len(l) > 30 {
					l = lines[0]
				}
				sb.WriteString(l + "\n")
			}
			if sb.Len() < 60000 {
				c.StepText("cli-file", sb.String(), level, 0)
			}
			c.StepText("cli-file", strings.Repeat("5D\n", n), level, 0)
			c.StepText("cli-file", strings.Repeat("\n", n)+lines[0], level, 0)
		}
	}
	// every window of adjacent bits of every frame takes all its values
	for _, b := range windowBases() {
		w := c.pick(8, 12)
		for level := 0.0; level < 3; level++ {
			if df := b[0] >> 3; level > 0 && df != 17 && df != 18 {
				break
			}
			for lo := 1; lo+w-1 <= len(b)*8-24; lo++ {
				c.Step("cli-window", b, level, float64(lo), float64(w))
			}
			if c.Stop() {
				return
			}
		}
	}
	for _, l := range []string{"3", "4", "-1", "10", "100", "256", "257", "258", "65536", "4294967296", "4294967297", "-2", "x", "1.5", "0x3"} {
		c.StepText("cli-level", "--adsb_reader_level="+l, 0, 0)
		c.StepText("cli-level", "--adsb_reader_level "+l, 0, 0)
	}
	// every type code through the program at every level
	for tc := 0; tc < 32; tc++ {
		for sub := 0; sub < 8; sub++ {
			for level := 0.0; level < 3; level++ {
				for _, df := range []byte{0x8D, 0x90, 0x91} {
					d := sealFrame([]byte{df, 1, 2, 3, byte(tc<<3 | sub), 0x91, 0x22, 0x33, 0x44, 0x55, byte(sub << 5), 0, 0, 0}, 0)
					c.StepText("cli-argument", hex.EncodeToString(d), level, 3)
				}
			}
		}
		if c.Stop() {
			return
		}
	}
	for df := 0; df < 32; df++ {
		for _, n := range []int{7, 14} {
			for k, b := range fill(n, nil) {
				d := clone(b)
				d[0] = byte(df)<<3 | d[0]&7
				legalAltitude(d)
				c.StepText("cli-argument", hex.EncodeToString(sealFrame(d, uint32(k*0x10101)*b2u(df != 17 && df != 18))), 1, 3)
			}
		}
	}
}

// decorated gives the lines with every character, and the marks of other formats, in front, behind and inside.
func decorated(lines []string) []string {
	var r []string
	around := []string{"\uFEFF", "\u00A0", "\u2028", "\u00E9", "0x", "0X", "//", "/*", "*/", "--", "; ", "# ", "  ", "\t\t", "MSG,", "AVR ", "%%", "\\n", "\\x00"}
	for ch := 1; ch < 128; ch++ {
		if ch != '\n' {
			around = append(around, string(rune(ch)))
		}
	}
	for _, l := range lines {
		for _, a := range around {
			if a[0] != '-' {
				r = append(r, a+l, a+l+a, a)
				for _, b := range []string{";", "*", "]", "}", ")", ">", ","} {
					r = append(r, a+l+b)
				}
			}
			r = append(r, l+a, l[:2]+a+l[2:], l+a+"rest", l+a+l)
		}
		r = append(r, strings.ToLower(l), strings.ToLower(l[:len(l)/2])+l[len(l)/2:], "@0123456789AB"+l+";", "%016X"+l+";", l[1:], l[:len(l)-1], l+"0", l+"00", "0"+l, "00"+l)
	}
	return r
}

func b2u(b bool) uint32 { return uint32(b2i(b)) }

func init() {
	register(&Check{ID: "C26", Eval: evalCLI, Explore: exploreCLI,
		Bounds: "32 line kinds x 3 reader levels x 4 ways to write the options, as argument and as file; all pairs of line kinds as files, all triples of a third of them (thorough: all); lines up to 65534 characters, files up to 20000 lines; files of all frames which differ from one of the line kinds in 8 (thorough 12) adjacent bits, at every bit; lines ended by CR LF; two (thorough six) lines with each of 145 characters and marks in front, around, behind and inside; every line between two equal ones; every type code and subtype and every downlink format as argument; undefined reader levels",
		Assume: []string{"the texts of the decoded messages are decided by C23", "TIS-B relays (control field above 1) are not decoded by the program"}})
}
