package main

// R03: the text forms of coins, and records written as JSON and read back.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"
)

func coinText(c bip44.Coin) string {
	s := c.Name + " (Type " + strconv.FormatUint(uint64(c.Type), 10) + ")"
	if len(c.Symbol) > 0 {
		s = c.Symbol + " - " + s
	}
	return s
}

func coinSource(c bip44.Coin) string {
	return "{Type: " + strconv.FormatUint(uint64(c.Type), 10) + ", PathComponent: 0x" + strconv.FormatUint(uint64(c.PathComponent), 16) +
		", Symbol: \"" + c.Symbol + "\", Name: \"" + c.Name + "\"}"
}

func monR03(c *Check) {
	c.On("Coin.IsValid", func(w *W, e *Event) {
		x := bip44.Coin{Type: e.In[0].(uint32), PathComponent: e.In[1].(uint32), Symbol: e.In[2].(string), Name: e.In[3].(string)}
		w.Eval(e, true)
		w.FeatIf(x.Symbol == "", "no-symbol")
		w.FeatIf(x.Name == "", "no-name")
		w.FeatIf(strings.ContainsAny(x.Symbol+x.Name, "%"), "percent-sign")
		w.FeatIf(!utf8.ValidString(x.Symbol+x.Name), "not-utf8")
		if got, want := e.Out[1].(string), coinText(x); got != want {
			w.Fail(e, "text of a coin", got, want)
		}
		if got, want := e.Out[2].(string), coinSource(x); got != want {
			w.Fail(e, "source form of a coin", got, want)
		}
	})
}

// viaJSON writes v, reads it back into a fresh value of its type and compares.
func viaJSON(w *W, v any) (text string) {
	w.EvalKey(fmt.Sprintf("json %T %v", v, v), true)
	p := guard(func() {
		b, err := json.Marshal(v)
		if err != nil {
			w.Fail(nil, fmt.Sprintf("%T %+v cannot be written as JSON", v, v), err.Error(), "")
			return
		}
		text = string(b)
		back := reflect.New(reflect.TypeOf(v))
		if err = json.Unmarshal(b, back.Interface()); err != nil {
			w.Fail(nil, fmt.Sprintf("%T written as JSON cannot be read: %s", v, b), err.Error(), "")
			return
		}
		if !reflect.DeepEqual(back.Elem().Interface(), v) {
			w.Fail(nil, fmt.Sprintf("%T written as JSON and read back: %s", v, b), fmt.Sprintf("%+v", back.Elem().Interface()), fmt.Sprintf("%+v", v))
		}
	})
	if p != "" {
		w.Fail(nil, fmt.Sprintf("%T %+v as JSON", v, v), "panic: "+p, "")
	}
	return
}

// coinJSON also reads what another program would: an object of the four documented names.
func coinJSON(w *W, x bip44.Coin) {
	if !utf8.ValidString(x.Symbol + "|" + x.Name) {
		return
	}
	text := viaJSON(w, x)
	var m map[string]any
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	if d.Decode(&m) != nil {
		return // reported above
	}
	get := func(k string) string {
		v, ok := m[k]
		if !ok {
			return ""
		}
		return fmt.Sprint(v)
	}
	num := func(k string) string {
		if s := get(k); s != "" {
			return s
		}
		return "0"
	}
	got := []string{num("type"), num("pathComponent"), get("symbol"), get("name")}
	want := []string{fmt.Sprint(x.Type), fmt.Sprint(x.PathComponent), x.Symbol, x.Name}
	if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
		w.Fail(nil, "type, pathComponent, symbol and name in the JSON of a coin: "+text, got, want)
	}
	for k := range m {
		if k != "type" && k != "pathComponent" && k != "symbol" && k != "name" {
			w.FeatIf(true, "further-field")
		}
	}
}

func textOf(r *rand.Rand) string {
	frag := []string{"", "", " ", "BTC", "Bitcoin", "-", " - ", "(Type 3)", "%d", "%s", "%", "%!", "100%", "\"", "\\", "\n", "<b>&", "\u2028", "é", "日本", "\x00", "\u00a0", "{", "}", ", Name: \"x\"", "\xff", "0"}
	s := ""
	for k := r.Intn(4); k >= 0; k-- {
		s += frag[r.Intn(len(frag))]
	}
	if r.Intn(3) == 0 {
		s = strings.TrimSpace(s)
	}
	if r.Intn(5) == 0 {
		s = ""
	}
	return s
}

func init() {
	props["R03"] = func(c *Check) {
		c.Rule = "one verdict per coin: String and StringForMD against an independent formatter; per record (coin, key, key path, key range, version row): JSON text read back equals the record, and a coin's JSON has the four documented fields; over all registered coins and hostile ones; non-trivial: distinct coins and records"
		c.Require = []string{"no-symbol", "no-name", "percent-sign", "not-utf8", "registered", "generated-range", "further-record"}
		monR03(c)
		c.Seqn("registered", 1, func(w *W, i int) {
			texts, sources := map[string]bip44.Coin{}, map[string]bip44.Coin{}
			for _, x := range bip44.RegCoins {
				w.Feat("registered")
				w.CoinValid(x)
				coinJSON(w, x)
				if o, ok := texts[x.String()]; ok && o != x {
					w.Fail(nil, "two registered coins with one text", fmt.Sprintf("%+v", x), fmt.Sprintf("%+v", o))
				}
				if o, ok := sources[x.StringForMD()]; ok && o != x {
					w.Fail(nil, "two registered coins with one source form", fmt.Sprintf("%+v", x), fmt.Sprintf("%+v", o))
				}
				texts[x.String()], sources[x.StringForMD()] = x, x
				if a, b, d := fmt.Sprint(x), fmt.Sprintf("%s|%v", x, &x), coinText(x); a != d || b != d+"|"+d {
					w.Fail(nil, "a coin printed with %v and %s", a+" "+b, d)
				}
			}
		})
		c.Par("coins", c.N(40000, 1000000), func(w *W, i int) {
			r := w.R
			x := bip44.Coin{Type: pick(r, 0, 1, 9, 10, 60, 0x7fffffff, 0x80000000, 0xffffffff, r.Uint32(), r.Uint32()>>uint(r.Intn(32)))}
			x.PathComponent = pick(r, x.Type+1<<31, x.Type, 0, 1, 0xffffffff, r.Uint32(), r.Uint32()>>uint(r.Intn(32)))
			x.Symbol, x.Name = textOf(r), textOf(r)
			if i%5 == 0 {
				x = bip44.RegCoins[r.Intn(len(bip44.RegCoins))]
				switch r.Intn(5) {
				case 0:
					x.Symbol = ""
				case 1:
					x.Name = ""
				case 2:
					x.Type = r.Uint32()
				case 3:
					x.Symbol, x.Name = x.Name, x.Symbol
				}
			}
			w.CoinValid(x)
			if i%4 == 0 {
				coinJSON(w, x)
			}
		})
		c.Par("records", c.N(3000, 60000), func(w *W, i int) {
			r := w.R
			k := bip32.Key(genKey(r))
			if i%7 == 0 {
				r.Read(k[:])
			}
			kp := util.KeyPath{Path: bip32.Path(pathOf([]uint32{genIndex(r), genIndex(r)})), Key: k}
			viaJSON(w, k)
			viaJSON(w, kp)
			if i%20 == 0 {
				n := uint32(r.Intn(4))
				g := util.KeyPathRange{StartIndex: n, EndIndex: n + 1 + uint32(r.Intn(3)), KeyPath: kp}
				viaJSON(w, g)
				g.KeyPath.Key = bip32.Key(genPriv(r))
				if guard(func() { g.GenerateRange() }) == "" && len(g.KeyPaths) > 0 {
					w.Feat("generated-range")
					viaJSON(w, g)
				}
			}
			if i < len(bip32.HDVersionBytesSlice) {
				w.Feat("further-record")
				viaJSON(w, bip32.HDVersionBytesSlice[i])
			}
			viaJSON(w, kp.Path)
		})
		c.mixed(c.N(40, 600))
	}
}
