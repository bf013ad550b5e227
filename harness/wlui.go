package main

// U01: the real example application runs without a display (ui/appstub.go.txt); its screen is judged after every action.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"time"
	"unicode"

	"verifharness/oracle"
)

type uiAction struct {
	Op   string
	Text string
	N    int
}

type uiScreen struct {
	Mnemonic, Passphrase, Seed, Root, Path string
	Labels                                 []string
}

// shownKeys is what stands below OUTPUT: the paths of all derived keys and the details of the selected one.
func (s uiScreen) output() []string {
	for i, l := range s.Labels {
		if l == "OUTPUT" {
			return s.Labels[i+1:]
		}
	}
	return nil
}

func details(k KP) []string {
	pub := oracle.PubForm(k.Key)
	p := pub.Pub()
	return []string{k.Path, oracle.B58Encode(oracle.Serialize(k.Key)), oracle.B58Encode(oracle.Serialize(pub)), oracle.Hex(k.Key[46:]), oracle.Hex(p[:]), oracle.EthAddr(k.Key.Point())}
}

// keysOf is what the root key and path on screen denote.
func keysOf(root, path string) []KP {
	b, ok := oracle.B58Decode(root)
	if !ok {
		return nil
	}
	k, ok := oracle.ImportOK(b, oracle.IsPriv, oracle.IsPub)
	if !ok || !goodRoot(k) {
		return nil
	}
	vals, ok := oracle.ParsePath(path)
	if !ok {
		vals = nil
	}
	out, ok := deriveOracle(k, vals)
	if !ok {
		return nil
	}
	return out
}

// uiModel follows one session; it only keeps what the two recorded findings need.
type uiModel struct {
	last  []KP // keys on screen after the previous action
	stale bool // finding: keys of an earlier root stay after an invalid root key text
	lost  bool // finding: nothing is selected after the keys were gone once
}

func eqS(a, b []string) bool { return strings.Join(a, "\x00") == strings.Join(b, "\x00") }

func (m *uiModel) judge(w *W, a uiAction, before, s uiScreen) {
	e := &Event{Op: "ui:" + a.Op, In: []any{a.Text, a.N}, Out: []any{fmt.Sprintf("%+v", s)}}
	w.ring[w.ringPos] = e
	w.ringPos = (w.ringPos + 1) % len(w.ring)
	w.events++
	w.ops[e.Op]++
	w.EvalKey(fmt.Sprintf("%s|%s|%+v", a.Op, a.Text, s), true)

	// what the user typed stays
	typed := map[string]string{"mnemonic": s.Mnemonic, "passphrase": s.Passphrase, "seed": s.Seed, "root": s.Root, "path": s.Path}
	if t, ok := typed[a.Op]; ok && t != a.Text {
		w.Fail(e, "the text just typed into "+a.Op+" is no longer shown", t, a.Text)
	}
	// seed of the mnemonic
	if s.Mnemonic != "" {
		want := ""
		if _, ok := oracle.Decode("english", s.Mnemonic); ok {
			want = oracle.Hex(oracle.Seed(strings.Join(strings.Fields(s.Mnemonic), " "), s.Passphrase))
			w.Feat("valid-mnemonic")
			w.FeatIf(s.Passphrase != "", "with-passphrase")
		} else {
			w.Feat("invalid-mnemonic")
		}
		if !strings.EqualFold(s.Seed, want) {
			w.Fail(e, "shown seed is not that of the shown mnemonic and passphrase", s.Seed, want)
		}
	}
	if a.Op == "generate" {
		if n := len(strings.Fields(s.Mnemonic)); fmt.Sprint(n) != a.Text || s.Mnemonic == before.Mnemonic {
			w.Fail(e, "generated mnemonic", s.Mnemonic, a.Text+" fresh words")
		}
		w.Feat("generated")
	}
	// root key of the seed
	wantKeys := keysOf(s.Root, s.Path)
	if s.Seed != "" || s.Mnemonic != "" {
		seed, ok := oracle.UnHex(s.Seed)
		if ok && len(seed) >= 16 {
			k, mok := oracle.Master(seed)
			if want := oracle.B58Encode(oracle.Serialize(k)); mok && s.Root != want {
				w.Fail(e, "shown root key is not that of the shown seed", s.Root, want)
			}
		} else {
			w.Feat("invalid-seed")
			if wantKeys != nil {
				w.Fail(e, "a root key is shown for no valid seed", s.Root, "no valid key")
			}
		}
	} else if s.Root != "" {
		w.FeatIf(wantKeys != nil, "root-key-typed")
		w.FeatIf(wantKeys == nil, "invalid-root-key")
	}
	// derived keys
	out := s.output()
	paths := func(ks []KP) (o []string) {
		for _, k := range ks {
			o = append(o, k.Path)
		}
		return
	}
	if wantKeys == nil && len(out) > 0 && len(m.last) > 0 && (a.Op == "root" && s.Root == a.Text || m.stale) {
		// the keys of the previous root are all still there: recorded finding
		np := len(m.last)
		if len(out) >= np && eqS(out[:np], paths(m.last)) && (len(out) == np || m.isOne(out[np:], m.last)) {
			m.stale = true
			w.Known(e, "stale-keys-after-invalid-root", "keys of an earlier root key stay on screen after an invalid root key was typed", out, "no keys")
			return
		}
	}
	m.stale = false
	defer func() { m.last = wantKeys }()
	if wantKeys == nil {
		m.lost = true
		w.Feat("no-keys")
		if len(out) > 0 {
			w.Fail(e, "keys are shown although no valid input is", out, "no keys")
		}
		return
	}
	w.Feat("keys-shown")
	w.FeatIf(len(wantKeys) > 1, "several-keys")
	np := len(wantKeys)
	if len(out) < np || !eqS(out[:np], paths(wantKeys)) {
		w.Fail(e, "listed derived keys", out, paths(wantKeys))
		return
	}
	d := out[np:]
	if len(d) == 0 {
		if m.lost && a.Op != "tab" && a.Op != "right" {
			w.Known(e, "selection-lost-after-no-keys", "no derived key is selected after input was invalid once", "none selected", "one selected")
			return
		}
		w.Fail(e, "no derived key is selected", "none", "one")
		return
	}
	m.lost = false
	if !m.isOne(d, wantKeys) {
		w.Fail(e, "details shown are not those of a derived key", d, "one of the derived keys")
		return
	}
	sel := -1
	for i, k := range wantKeys {
		if eqS(d, details(k)) {
			sel = i
		}
	}
	if a.Op == "tab" && sel != a.N%np {
		w.Fail(e, "selected key after choosing one", sel, a.N%np)
	}
	w.FeatIf(sel > 0, "other-than-first-selected")
}

func (m *uiModel) isOne(d []string, ks []KP) bool {
	for _, k := range ks {
		if eqS(d, details(k)) {
			return true
		}
	}
	return false
}

func uiGen(r *rand.Rand, mem *[]uiAction) uiAction {
	if len(*mem) > 0 && r.Intn(5) == 0 { // back to something entered earlier
		return (*mem)[r.Intn(len(*mem))]
	}
	var a uiAction
	switch r.Intn(16) {
	case 0, 1:
		a = uiAction{Op: "mnemonic", Text: oracle.Sentence("english", genEntropy(r, entLens[r.Intn(5)]))}
	case 2:
		a = uiAction{Op: "mnemonic", Text: damage(r, "english", strings.Fields(oracle.Sentence("english", genEntropy(r, 16))))}
		if !stable(a.Text) {
			a.Text = "abandon"
		}
	case 3:
		a = uiAction{Op: "mnemonic", Text: pick(r, "", "abandon", "zoo zoo zoo", "x")}
	case 4, 5:
		p := genStablePass(r)
		if len(p) > 60 || strings.ContainsAny(p, "\r\n\x00") {
			p = "pass"
		}
		a = uiAction{Op: "passphrase", Text: p}
	case 6:
		a = uiAction{Op: "seed", Text: oracle.Hex(genSeed(r))}
	case 7:
		a = uiAction{Op: "seed", Text: pick(r, "", "zz", "00", "abc", strings.Repeat("0", 30), strings.Repeat("g", 64), strings.Repeat("ab", 15))}
	case 8:
		a = uiAction{Op: "root", Text: oracle.B58Encode(oracle.Serialize(genRoot(r)))}
	case 9:
		t := oracle.B58Encode(oracle.Serialize(genRoot(r)))
		switch r.Intn(4) {
		case 0:
			t = t[:len(t)-1]
		case 1:
			t = oracle.B58Encode(oracle.Serialize(oracle.PubForm(genRoot(r))))
		case 2:
			k := genPriv(r)
			k[4] = byte(1 + r.Intn(255))
			t = oracle.B58Encode(oracle.Serialize(k))
		case 3:
			t = pick(r, "", "xprv", "1", "xpub661MyMwAqRbc")
		}
		a = uiAction{Op: "root", Text: t}
	case 10, 11:
		a = uiAction{Op: "path", Text: genPathText(r, genIdxs(r, 5))}
	case 12:
		a = uiAction{Op: "path", Text: pick(r, "", "m", "M", "m/", "m/44'", "m/44'/60'/0'/0/0", "x", "m/4294967296", "m/0'/0", "m/0/0'", "m//1")}
	case 13:
		return uiAction{Op: "generate", Text: pick(r, "12", "15", "18", "21", "24")}
	case 14:
		return uiAction{Op: "tab", N: r.Intn(8)}
	default:
		return uiAction{Op: pick(r, "left", "right", "right")}
	}
	if a.Op == "path" && (ambiguousWS(a.Text) || strings.ContainsAny(a.Text, "\r\n")) {
		a.Text = "m/1/2"
	}
	// a text field takes text: valid UTF-8 without control characters
	a.Text = strings.Map(func(c rune) rune {
		if unicode.IsControl(c) || c == unicode.ReplacementChar {
			return -1
		}
		return c
	}, strings.ToValidUTF8(strings.Join(strings.Fields(a.Text), " "), ""))
	*mem = append(*mem, a)
	return a
}

func init() {
	props["U01"] = func(c *Check) {
		c.Rule = "one evaluation per user action on the running application: the whole screen compared with what the shown inputs denote; distinct by action and screen"
		c.Require = []string{"valid-mnemonic", "invalid-mnemonic", "with-passphrase", "generated", "invalid-seed", "root-key-typed", "invalid-root-key", "no-keys", "keys-shown", "several-keys", "other-than-first-selected"}
		c.Assumptions = []string{"the windowing backend of gioui.org is replaced by a stub that requests frames; event loop, handlers, widgets and layout are the real ones", "text is entered as whole field contents, not key by key"}
		bin := os.Getenv("VERIF_UI_BIN")
		if bin == "" {
			c.Inconclusive("no build of the example (run through check.sh)")
			return
		}
		steps := c.N(90, 400)
		c.Par("sessions", c.N(48, 800), func(w *W, i int) {
			cmd := exec.Command(bin)
			stdin, _ := cmd.StdinPipe()
			stdout, _ := cmd.StdoutPipe()
			var errb strings.Builder
			cmd.Stderr = &errb
			if err := cmd.Start(); err != nil {
				c.Inconclusive(err.Error())
				return
			}
			timer := time.AfterFunc(200*time.Second, func() { cmd.Process.Kill() })
			defer timer.Stop()
			in, enc := bufio.NewReaderSize(stdout, 1<<20), json.NewEncoder(stdin)
			var mem []uiAction
			var before uiScreen
			m := &uiModel{}
			for k := 0; k < steps; k++ {
				a := uiGen(w.R, &mem)
				// an action on text that is already there changes nothing and is not typed
				enc.Encode(a)
				line, err := in.ReadBytes('\n')
				if err != nil {
					stdin.Close()
					cmd.Wait()
					if hasLib(errb.String()) && strings.Contains(errb.String(), "goroutine ") {
						w.Fail(&Event{Op: "ui:" + a.Op, In: []any{a.Text, a.N}}, "the application crashed", errb.String(), "a screen")
					} else {
						c.Inconclusive(fmt.Sprintf("ui session ended: %v %.500s", err, errb.String()))
					}
					return
				}
				var s uiScreen
				if err := json.Unmarshal(line, &s); err != nil {
					c.Inconclusive(err.Error())
					return
				}
				m.judge(w, a, before, s)
				before = s
			}
			stdin.Close()
			io.Copy(io.Discard, in)
			cmd.Wait()
			w.Feat("session")
		})
	}
}
