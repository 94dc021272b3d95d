package main

// C23: readable output. The model of the texts is a frozen table (texts.json, reviewed by hand): the meaning of every
// value of every coded field, and for every message which label shows which field. Each explored message is rendered by
// the model from the observed field values, and compared with the text the code gives.

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

//go:embed texts.json
var textsJSON []byte

type textTemplate struct {
	Format string   `json:"format"`
	Args   []string `json:"args"`
}

type textTables struct {
	Templates map[string]*textTemplate     `json:"templates"`
	Codes     map[string]map[string]string `json:"codes"`
	Consts    map[string]map[string]string `json:"consts"`
}

var texts textTables

const modPath = "github.com/twuillemin/modes/pkg/"

var typeKeys = map[reflect.Type]string{}

func typeKey(t reflect.Type) string {
	k, ok := typeKeys[t]
	if !ok {
		if t.Name() != "" && strings.HasPrefix(t.PkgPath(), modPath) {
			k = strings.TrimPrefix(t.PkgPath(), modPath) + "." + t.Name()
		}
		typeKeys[t] = k
	}
	return k
}

func isScalar(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8,
		reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

// readable makes values of unexported fields readable.
func readable(v reflect.Value) reflect.Value {
	if v.IsValid() && !v.CanInterface() && v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// own gives the text which the code gives to a value.
func own(v reflect.Value, method string) (string, bool) {
	if !v.IsValid() || !v.CanInterface() {
		return "", false
	}
	k := lookupKey{v.Type(), method}
	i, found := methodCache[k]
	if !found {
		i = -1
		if m, has := v.Type().MethodByName(method); has {
			i = m.Index
		}
		methodCache[k] = i
	}
	w := v
	if i < 0 {
		// the method may belong to the pointer
		if v.Kind() != reflect.Ptr && v.Kind() != reflect.Interface && reflect.PtrTo(v.Type()).NumMethod() > v.NumMethod() {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			if _, has := p.Type().MethodByName(method); has {
				w = p
			}
		}
	}
	if w == v && i < 0 {
		return "", false
	}
	var m reflect.Value
	if i >= 0 {
		m = v.Method(i)
	} else {
		m = w.MethodByName(method)
	}
	if m.Type().NumIn() != 0 || m.Type().NumOut() != 1 || m.Type().Out(0).Kind() != reflect.String {
		return "", false
	}
	return m.Call(nil)[0].String(), true
}

// modelText renders a value by the tables; ok is false when they do not know it.
func modelText(v reflect.Value) (string, bool) {
	v = deref(v)
	if !v.IsValid() {
		return "", false
	}
	key := typeKey(v.Type())
	if f, ok := specialTexts[key]; ok {
		return f(v)
	}
	if t := texts.Templates[key]; t != nil {
		return t.render(key, v), true
	}
	if c := texts.Codes[key]; c != nil && isScalar(v.Type()) {
		s, ok := c[toVal(v).String()]
		return s, ok
	}
	return "", false
}

// textOf is the model's text where it knows the value, else the code's own.
func textOf(v reflect.Value) string {
	if s, ok := modelText(v); ok {
		return s
	}
	s, _ := own(v, "ToString")
	return s
}

func indentText(s string) string {
	return "    " + strings.ReplaceAll(s, "\n", "\n    ")
}

const unknownArg = "\x01"

func (t *textTemplate) render(key string, v reflect.Value) string {
	args := make([]interface{}, len(t.Args))
	for i, a := range t.Args {
		args[i] = templateArg(key, v, a)
	}
	return fmt.Sprintf(t.Format, args...)
}

func templateArg(key string, v reflect.Value, a string) interface{} {
	if c, ok := texts.Consts[key][a]; ok {
		return c
	}
	if strings.HasPrefix(a, ">") {
		return indentText(fmt.Sprint(templateArg(key, v, a[1:])))
	}
	asText := strings.HasSuffix(a, "!")
	a = strings.TrimSuffix(a, "!")
	var x reflect.Value
	switch {
	case a == "toSpeedString()" || a == "toTrackString()":
		getter, unit := "GetSpeed", "knots"
		if a == "toTrackString()" {
			getter, unit = "GetTrack", "degrees"
		}
		r, isErr, ok := callGetter(v, getter)
		if !ok {
			return unknownArg
		}
		if isErr {
			return fmt.Sprintf("not computable: %v", r.Interface())
		}
		return fmt.Sprintf("%v (%s)", r.Interface(), unit)
	case strings.HasSuffix(a, "()"):
		r, isErr, ok := callGetter(v, a[:len(a)-2])
		if !ok || isErr {
			return unknownArg
		}
		x = r
	default:
		f, ok := field(v, a)
		if !ok {
			f = v.FieldByName(a) // unexported
			if !f.IsValid() {
				return unknownArg
			}
		}
		x = f
	}
	if asText {
		if k := x.Kind(); (k == reflect.Ptr || k == reflect.Interface) && x.IsNil() {
			return unknownArg
		}
		return textOf(x)
	}
	return x // fmt prints the value a reflect.Value holds
}

func hexBytes(n int) func(v reflect.Value) (string, bool) {
	return func(v reflect.Value) (string, bool) {
		b := toVal(v)
		if b.K != 'b' || len(b.S) != n {
			return "", false
		}
		return fmt.Sprintf("% X", b.S), true
	}
}

func plainNumber(v reflect.Value) (string, bool) { return toVal(v).String(), true }

func num24(v reflect.Value, path string) (string, bool) {
	n := toVal(v)
	if path != "" {
		f, ok := field(v, path)
		if !ok {
			return "", false
		}
		n = toVal(f)
	}
	u := uint64(n.N)
	return fmt.Sprintf("%02X %02X %02X", u>>16&255, u>>8&255, u&255), n.K == 'n'
}

// specialTexts are the renderings which are not a plain list of labels.
var specialTexts map[string]func(v reflect.Value) (string, bool)

func init() {
	specialTexts = map[string]func(v reflect.Value) (string, bool){
		"modes/fields.MessageCommB":            hexBytes(7),
		"modes/fields.MessageCommD":            hexBytes(10),
		"modes/fields.MessageExtendedSquitter": hexBytes(7),
		"modes/fields.NumberOfDSegment":        plainNumber,
		"bds/bds06/fields.EncodedLatitude":     plainNumber,
		"bds/bds06/fields.EncodedLongitude":    plainNumber,
		"modes/fields.AddressAnnounced":        func(v reflect.Value) (string, bool) { return num24(v, "Address") },
		"acas/ra/fields.ThreatIdentityAddress": func(v reflect.Value) (string, bool) { return num24(v, "") },
		"modes/fields.MessageACAS": func(v reflect.Value) (string, bool) {
			b := toVal(v)
			if b.K != 'b' {
				return "", false
			}
			return strings.ReplaceAll(fmt.Sprint([]byte(b.S)), ",", ""), true
		},
		"bds/bds10/fields.DTESubAddressStatuses": func(v reflect.Value) (string, bool) {
			u := uint64(toVal(v).N)
			var s []string
			for i := 15; i >= 0; i-- {
				s = append(s, fmt.Sprint(u>>uint(i)&1))
			}
			return strings.Join(s, ", "), true
		},
		"modes/fields.Identity": func(v reflect.Value) (string, bool) {
			f, ok := field(v, "Identity")
			if !ok || f.Kind() != reflect.String {
				return "", false
			}
			s := f.String()
			meaning := map[string]string{"7700": " [Emergency]", "7600": " [Radiocommunication Failure]",
				"7500": " [Unlawful Interference]", "2000": " [Instruction Not Received]"}
			return s + meaning[s], true
		},
		"acas/ra.ResolutionAdvisory": func(v reflect.Value) (string, bool) {
			var parts []string
			line := func(label, path string, indent bool) bool {
				f, ok := field(v, path)
				if !ok {
					return false
				}
				if k := f.Kind(); (k == reflect.Ptr || k == reflect.Interface) && f.IsNil() {
					return false
				}
				t := textOf(f)
				if indent {
					t = "\n" + indentText(t)
				}
				parts = append(parts, label+": "+t)
				return true
			}
			ok := line("Active Resolution Advisory", "ActiveRA", true) &&
				line("Active Resolution Advisory Complement", "RAComplement", true) &&
				line("Active Resolution Advisory Terminated Indicator", "RATerminatedIndicator", false) &&
				line("Multiple Threat Encounter", "MultipleThreatEncounter", false) &&
				line("Threat Type Indicator", "ThreatTypeIndicator", false)
			if !ok {
				return "", false
			}
			f, _ := field(v, "ThreatTypeIndicator")
			switch toVal(f).N {
			case 1:
				ok = line("Threat Mode-S Identity", "ThreatIdentityAddress", false)
			case 2:
				ok = line("Threat Altitude", "ThreatIdentityAltitude", false) && line("Threat Range", "ThreatIdentityRange", false) &&
					line("Threat Bearing", "ThreatIdentityBearing", false)
			}
			return strings.Join(parts, "\n"), ok
		},
	}
	if err := json.Unmarshal(textsJSON, &texts); err != nil {
		panic(err)
	}
}

// textLines are the lines of a text with white space normalised.
func textLines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		f := strings.Join(strings.Fields(l), " ")
		if f != "" {
			out = append(out, f)
		}
	}
	return out
}

func sameLine(got, want string) bool {
	if got == want {
		return true
	}
	if i := strings.Index(want, unknownArg); i >= 0 {
		return strings.HasPrefix(got, strings.TrimSpace(want[:i]))
	}
	return false
}

type codeKey struct {
	t reflect.Type
	n float64
}

var codesSeen = map[codeKey]string{}

// checkTexts compares every text reachable from the value with the model's.
func checkTexts(v reflect.Value, depth int, sig *uint64) string {
	if depth > 10 || !v.IsValid() {
		return ""
	}
	t := v.Type()
	if isScalar(t) {
		key := typeKey(t)
		if key == "" {
			return ""
		}
		n := toVal(v)
		ck := codeKey{t, n.N}
		p, seen := codesSeen[ck]
		if !seen {
			p = checkCode(key, v, n)
			codesSeen[ck] = p
		}
		return p
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return ""
		}
		if v.Kind() == reflect.Ptr {
			if p := compareText(v, sig); p != "" {
				return p
			}
		}
		e := v.Elem()
		if v.Kind() == reflect.Ptr && e.Kind() == reflect.Struct {
			return checkFields(e, depth, sig)
		}
		return checkTexts(e, depth+1, sig)
	case reflect.Struct:
		if p := compareText(v, sig); p != "" {
			return p
		}
		return checkFields(v, depth, sig)
	case reflect.Slice, reflect.Array:
		if typeKey(t) != "" {
			if p := compareText(v, sig); p != "" {
				return p
			}
		}
		if t.Elem().Kind() == reflect.Uint8 {
			return ""
		}
		for i := 0; i < v.Len(); i++ {
			if p := checkTexts(v.Index(i), depth+1, sig); p != "" {
				return p
			}
		}
	}
	return ""
}

func checkFields(v reflect.Value, depth int, sig *uint64) string {
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).PkgPath != "" {
			continue
		}
		if p := checkTexts(v.Field(i), depth+1, sig); p != "" {
			return p
		}
	}
	return ""
}

func checkCode(key string, v reflect.Value, n Val) string {
	for _, m := range []string{"ToString", "GetCategorySetName", "GetDescription", "GetName"} {
		got, ok := own(v, m)
		if !ok {
			continue
		}
		k := key
		if m != "ToString" {
			k += "#" + m
		}
		var want string
		if m == "ToString" && specialTexts[key] != nil {
			want, ok = specialTexts[key](v)
		} else if c := texts.Codes[k]; c != nil {
			want, ok = c[n.String()]
		} else {
			unobserved["text of "+k] = true
			continue
		}
		if ok && strings.Join(textLines(got), " ") != strings.Join(textLines(want), " ") {
			return fmt.Sprintf("meaning of %s: %v reads %q, want %q", k, n, got, want)
		}
	}
	return ""
}

func compareText(v reflect.Value, sig *uint64) string {
	got, ok := own(v, "ToString")
	if !ok {
		return ""
	}
	want, ok := modelText(v)
	if !ok {
		unobserved["text of "+typeKey(deref(v).Type())] = true
		return ""
	}
	*sig = mix(*sig ^ hashState("", nil, nil, got))
	if got == want {
		return ""
	}
	g, w := textLines(got), textLines(want)
	if len(g) != len(w) && !strings.Contains(want, unknownArg) {
		return fmt.Sprintf("text of %s: has %d lines, want %d:\n%s\nwant:\n%s", typeKey(deref(v).Type()), len(g), len(w), strings.Join(g, "\n"), strings.Join(w, "\n"))
	}
	for i := range w {
		if i >= len(g) {
			return fmt.Sprintf("text of %s: line %q is missing", typeKey(deref(v).Type()), w[i])
		}
		if !sameLine(g[i], w[i]) {
			if strings.Contains(want, unknownArg) && len(g) != len(w) {
				return ""
			}
			return fmt.Sprintf("text of %s: line %q, want %q", typeKey(deref(v).Type()), g[i], w[i])
		}
	}
	return ""
}

var textLayouts map[string]*Layout
var textLayoutList []*Layout

func prepareTexts() {
	if textLayouts != nil {
		return
	}
	textLayouts = map[string]*Layout{}
	for _, id := range layoutChecks {
		for _, l := range checkLayouts[id] {
			if textLayouts[l.Name] == nil {
				textLayouts[l.Name] = l
				textLayoutList = append(textLayoutList, l)
			}
		}
	}
}

func evalText(s *State, verbose bool) Outcome {
	prepareTexts()
	l := textLayouts[s.Op]
	got, err := l.Call(clone(s.Data), s.Args)
	var o Outcome
	if err != nil || isNil(got) {
		o.Open = true
		o.Sig = 3
		return o
	}
	o.Sig = 1
	o.Problem = checkTexts(reflect.ValueOf(got), 0, &o.Sig)
	if verbose {
		o.Text, _ = own(reflect.ValueOf(got), "ToString")
	}
	return o
}

func exploreText(c *Ctx) {
	prepareTexts()
	// a narrow pass over every layout first
	for _, l := range textLayoutList {
		l.explore(c, exploreOpts{hamming: 1, full: 9, hamBases: 4})
	}
	for _, l := range textLayoutList {
		o := exploreOpts{hamming: 2, windows: 6, full: 13, pairs: 10, winBases: 99, hamBases: 4, pairBases: 1, triples: 1, related: 1, relBits: 14, patterns: 1}
		if c.thorough {
			o = exploreOpts{hamming: 3, windows: 14, full: 20, pairs: 16, winBases: 99, hamBases: 3, pairBases: 99, triples: 2, related: 9, relBits: 24, patterns: 9}
		}
		l.explore(c, o)
	}
}

func init() {
	register(&Check{ID: "C23", Eval: evalText, Explore: exploreText,
		Bounds: "every message kind with several base contents and all argument combinations: every field takes all its values (up to 13 bits, thorough 20), every pair of fields all value pairs (up to 10 bits together; thorough 16) or pairs of boundary values, triples of boundary values, fields with related values and periodic contents around the first base, all contents within 2 (3) bit changes, every 6-bit (14-bit) window; on each message every text reachable from it",
		Assume: []string{"the frozen table of meanings and labels (texts.json) was reviewed by hand against the standard; codes which it does not list (unassigned ones) are left open"}})
}

// genTexts drafts the tables from the current tree: mc gentexts templates.json
func genTexts(file string) {
	texts = textTables{Codes: map[string]map[string]string{}, Consts: map[string]map[string]string{}}
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &texts.Templates); err != nil {
		panic(err)
	}
	for k := range specialTexts {
		delete(texts.Templates, k)
	}
	seen := map[reflect.Type]bool{}
	var walk func(v reflect.Value, depth int)
	constOf := func(v reflect.Value) {
		key := typeKey(v.Type())
		t := texts.Templates[key]
		if t == nil {
			return
		}
		for _, a := range t.Args {
			if !strings.Contains(a, "()") || strings.HasPrefix(a, "to") {
				continue
			}
			x := v.Addr()
			r, _, ok := callGetter(x, strings.TrimSuffix(a, "!")[:strings.Index(a, "()")])
			if !ok {
				fmt.Fprintln(os.Stderr, "no getter", key, a)
				continue
			}
			var s string
			if strings.HasSuffix(a, "!") {
				s, _ = own(r, "ToString")
			} else {
				s = fmt.Sprint(r.Interface())
			}
			if texts.Consts[key] == nil {
				texts.Consts[key] = map[string]string{}
			}
			if old, ok := texts.Consts[key][a]; ok && old != s {
				fmt.Fprintln(os.Stderr, "not constant", key, a, old, s)
			}
			texts.Consts[key][a] = s
		}
	}
	scalar := func(t reflect.Type) {
		if seen[t] || typeKey(t) == "" || specialTexts[typeKey(t)] != nil {
			return
		}
		seen[t] = true
		for _, m := range []string{"ToString", "GetCategorySetName", "GetDescription", "GetName"} {
			k := typeKey(t)
			if m != "ToString" {
				k += "#" + m
			}
			for i := 0; i < 256 && (m == "ToString" || i < 8); i++ {
				v := reflect.New(t).Elem()
				switch t.Kind() {
				case reflect.Bool:
					if i > 1 {
						continue
					}
					v.SetBool(i == 1)
				case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
					v.SetUint(uint64(i))
				default:
					v.SetInt(int64(i % 128))
				}
				s, ok := own(v, m)
				if !ok || strings.Contains(s, "Unknown code") || strings.Contains(s, "there is no ADSB") {
					continue
				}
				if texts.Codes[k] == nil {
					texts.Codes[k] = map[string]string{}
				}
				texts.Codes[k][toVal(v).String()] = s
			}
		}
	}
	walk = func(v reflect.Value, depth int) {
		v = deref(v)
		if !v.IsValid() || depth > 10 {
			return
		}
		if isScalar(v.Type()) {
			scalar(v.Type())
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			if !v.CanAddr() {
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				v = p.Elem()
			}
			constOf(v)
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i), depth+1)
				}
			}
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() != reflect.Uint8 {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), depth+1)
				}
			}
		}
	}
	prepareTexts()
	for _, l := range textLayoutList {
		args := l.Args
		if len(args) == 0 {
			args = [][]float64{nil}
		}
		for _, a := range args {
			for _, b := range l.Bases {
				hammingBall(b, 1, func(x []byte) bool {
					if got, err := l.Call(clone(x), a); err == nil && !isNil(got) {
						walk(reflect.ValueOf(got), 0)
					}
					return true
				})
			}
		}
	}
	var keys []string
	for k := range texts.Codes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if strings.Contains(k, "#") {
			continue
		}
		back := map[string]string{}
		for c, s := range texts.Codes[k] {
			if o, ok := back[s]; ok {
				fmt.Fprintf(os.Stderr, "same text: %s %s %s %q\n", k, c, o, s)
			}
			back[s] = c
			f := strings.SplitN(strings.TrimSpace(s), " - ", 2)
			if len(f) == 2 && f[0] != c && len(f[0]) < 4 {
				fmt.Fprintf(os.Stderr, "other code: %s %s %q\n", k, c, s)
			}
		}
	}
	out, _ := json.MarshalIndent(texts, "", " ")
	os.Stdout.Write(append(out, '\n'))
}
