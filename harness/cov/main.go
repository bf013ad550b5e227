// cov REPO OUTDIR HARNESS: instrument the library for what a run of it has done. Writes into OUTDIR
//
//	overlay.json  a build overlay: the library's files with a mark at every function, block and outcome of every condition,
//	              and a file for the harness (zz_cov.go) that lists the marks of all packages
//	items.json    what each mark stands for, and the constants written near it
//	dict.json     the constants (numbers and texts) that the library's functions contain
//
// Nothing is judged by the text: the marks tell the workloads which situations are still missing, the constants are inputs to try.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type item struct {
	Pkg, Func, What string
	Line            int
	Entry           int // index (in the package) of the mark of the function around it
	Nums            []uint64
	Strs            []string // hex
}

type dict struct {
	Nums []uint64
	Strs []string // hex
}

var dirs = []string{"bip32", "bip39", "bip44", "util"}

type edit struct {
	pos  int
	text string
	rank int // order among edits at one place
}

type file struct {
	path  string
	src   []byte
	ast   *ast.File
	edits []edit
}

type pack struct {
	name, dir string
	consts    map[string]constant.Value
	files     []*file
	items     []item
	fset      *token.FileSet
}

func (p *pack) off(pos token.Pos) int { return p.fset.Position(pos).Offset }

// eval computes a constant expression as far as literals and the package's own constants go.
func (p *pack) eval(e ast.Expr, iota_ int) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch x := e.(type) {
	case *ast.BasicLit:
		return constant.MakeFromLiteral(x.Value, x.Kind, 0)
	case *ast.ParenExpr:
		return p.eval(x.X, iota_)
	case *ast.Ident:
		if x.Name == "iota" && iota_ >= 0 {
			return constant.MakeInt64(int64(iota_))
		}
		return p.consts[x.Name]
	case *ast.UnaryExpr:
		if v := p.eval(x.X, iota_); v != nil {
			return constant.UnaryOp(x.Op, v, 64)
		}
	case *ast.CallExpr: // conversions
		if len(x.Args) == 1 {
			if _, ok := x.Fun.(*ast.Ident); ok {
				return p.eval(x.Args[0], iota_)
			}
		}
	case *ast.BinaryExpr:
		a, b := p.eval(x.X, iota_), p.eval(x.Y, iota_)
		if a == nil || b == nil {
			return nil
		}
		switch x.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(b); ok && n < 512 {
				return constant.Shift(a, x.Op, uint(n))
			}
			return nil
		case token.QUO:
			if a.Kind() == constant.Int && b.Kind() == constant.Int {
				return constant.BinaryOp(a, token.QUO_ASSIGN, b)
			}
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			return nil
		}
		return constant.BinaryOp(a, x.Op, b)
	}
	return nil
}

// fixed says whether a condition consists of constants alone.
func fixed(p *pack, e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name == "true" || x.Name == "false"
	case *ast.BinaryExpr:
		return p.eval(x.X, -1) != nil && p.eval(x.Y, -1) != nil
	}
	return false
}

type bag struct {
	nums map[uint64]bool
	strs map[string]bool
}

func newBag() *bag { return &bag{map[uint64]bool{}, map[string]bool{}} }

func (b *bag) add(v constant.Value) {
	if v == nil {
		return
	}
	switch v.Kind() {
	case constant.Int:
		if n, ok := constant.Uint64Val(v); ok {
			b.nums[n] = true
		} else if n, ok := constant.Int64Val(v); ok {
			b.nums[uint64(-n)] = true
		}
	case constant.Float:
		if f, _ := constant.Float64Val(v); f == float64(uint64(f)) {
			b.nums[uint64(f)] = true
		}
	case constant.String:
		if s := constant.StringVal(v); s != "" && len(s) < 400 {
			b.strs[s] = true
			for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r < '0' || r > '9' }) { // m/13'
				if n, err := strconv.ParseUint(f, 10, 64); err == nil {
					b.nums[n] = true
				}
			}
		}
	}
}

func (b *bag) sorted() (nums []uint64, strs []string) {
	for n := range b.nums {
		nums = append(nums, n)
	}
	for s := range b.strs {
		strs = append(strs, hex.EncodeToString([]byte(s)))
	}
	sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
	sort.Strings(strs)
	return
}

// gather collects the constants of a piece of code: every literal, the largest constant expressions, lists of bytes as texts.
func (p *pack) gather(n ast.Node, b *bag) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CompositeLit:
			var bs []byte
			for _, e := range x.Elts {
				v := p.eval(e, -1)
				if v == nil || v.Kind() != constant.Int {
					bs = nil
					break
				}
				u, ok := constant.Uint64Val(v)
				if !ok || u > 255 {
					bs = nil
					break
				}
				bs = append(bs, byte(u))
			}
			if len(bs) > 1 && len(bs) < 200 {
				b.strs[string(bs)] = true
			}
			if len(x.Elts) > 400 { // a table, not a condition
				return false
			}
		case ast.Expr:
			b.add(p.eval(x, -1))
		}
		return true
	})
}

func (p *pack) mark(f *file, fn string, entry int, what string, pos token.Pos, near ...ast.Node) int {
	b := newBag()
	for _, n := range near {
		p.gather(n, b)
	}
	it := item{Pkg: p.dir, Func: fn, What: what, Line: p.fset.Position(pos).Line, Entry: entry}
	it.Nums, it.Strs = b.sorted()
	p.items = append(p.items, it)
	return len(p.items) - 1
}

func squeeze(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

func (p *pack) text(f *file, n ast.Node) string {
	return squeeze(string(f.src[p.off(n.Pos()):p.off(n.End())]))
}

func (p *pack) instrument(f *file, fn string, body *ast.BlockStmt) {
	entry := len(p.items)
	p.mark(f, fn, entry, "entered", body.Pos())
	ins := func(pos token.Pos, text string, rank int) {
		f.edits = append(f.edits, edit{p.off(pos), text, rank})
	}
	hit := func(i int) string { return fmt.Sprintf("verifHit(%d);", i) }
	ins(body.Lbrace+1, hit(entry), 0)
	var cond func(e ast.Expr, near ...ast.Node)
	cond = func(e ast.Expr, near ...ast.Node) {
		switch x := e.(type) {
		case *ast.ParenExpr:
			cond(x.X, near...)
			return
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				cond(x.X, near...)
				return
			}
		case *ast.BinaryExpr:
			if x.Op == token.LAND || x.Op == token.LOR {
				cond(x.X, near...)
				cond(x.Y, near...)
				return
			}
		}
		if fixed(p, e) { // decided when compiled
			return
		}
		t := p.mark(f, fn, entry, "true: "+p.text(f, e), e.Pos(), append(near, e)...)
		p.mark(f, fn, entry, "false: "+p.text(f, e), e.Pos(), append(near, e)...)
		ins(e.Pos(), fmt.Sprintf("verifCond(%d, ", t), 1)
		ins(e.End(), ")", -1)
	}
	seen := map[ast.Node]bool{}
	markCond := func(e ast.Expr, near ...ast.Node) {
		ast.Inspect(e, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				return false
			}
			if n != nil {
				seen[n] = true
			}
			return true
		})
		cond(e, near...)
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.IfStmt:
			if !seen[x.Cond] {
				markCond(x.Cond)
			}
		case *ast.ForStmt:
			if x.Cond != nil && !seen[x.Cond] {
				markCond(x.Cond)
			}
		case *ast.RangeStmt:
			ins(x.Body.Lbrace+1, hit(p.mark(f, fn, entry, "loop: "+p.text(f, x.X), x.Pos(), x.X)), 0)
		case *ast.SwitchStmt:
			for _, s := range x.Body.List {
				c := s.(*ast.CaseClause)
				what, near := "default", []ast.Node{}
				if len(c.List) > 0 {
					what = "case " + squeeze(string(f.src[p.off(c.List[0].Pos()):p.off(c.List[len(c.List)-1].End())]))
					for _, e := range c.List {
						near = append(near, e)
					}
				}
				if x.Tag != nil {
					near = append(near, x.Tag)
				} else {
					for _, e := range c.List {
						if !seen[e] {
							markCond(e)
						}
					}
				}
				ins(c.Colon+1, hit(p.mark(f, fn, entry, what, c.Pos(), near...)), 0)
			}
		case *ast.TypeSwitchStmt:
			for _, s := range x.Body.List {
				c := s.(*ast.CaseClause)
				what := "default"
				if len(c.List) > 0 {
					what = "type case " + squeeze(string(f.src[p.off(c.List[0].Pos()):p.off(c.List[len(c.List)-1].End())]))
				}
				ins(c.Colon+1, hit(p.mark(f, fn, entry, what, c.Pos())), 0)
			}
		case *ast.CommClause:
			ins(x.Colon+1, hit(p.mark(f, fn, entry, "select case", x.Pos())), 0)
		case *ast.FuncLit:
			ins(x.Body.Lbrace+1, hit(p.mark(f, fn, entry, "function literal", x.Pos())), 0)
		case *ast.BinaryExpr:
			if (x.Op == token.LAND || x.Op == token.LOR) && !seen[x] {
				markCond(x)
			}
		case *ast.GenDecl:
			if x.Tok == token.CONST {
				return false
			}
		}
		return true
	})
}

func load(repo, d string) (*pack, error) {
	ctx := build.Default
	bp, err := ctx.ImportDir(filepath.Join(repo, d), 0)
	if err != nil {
		return nil, err
	}
	p := &pack{name: bp.Name, dir: d, consts: map[string]constant.Value{}, fset: token.NewFileSet()}
	for _, n := range append(bp.GoFiles, bp.CgoFiles...) {
		path := filepath.Join(repo, d, n)
		src, err := os.ReadFile(path)
		if err != nil {
			return nil, err
		}
		a, err := parser.ParseFile(p.fset, path, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		p.files = append(p.files, &file{path: path, src: src, ast: a})
	}
	for round := 0; round < 4; round++ { // constants may refer to later ones
		for _, f := range p.files {
			ast.Inspect(f.ast, func(n ast.Node) bool {
				g, ok := n.(*ast.GenDecl)
				if !ok || g.Tok != token.CONST {
					return true
				}
				var last []ast.Expr
				for i, s := range g.Specs {
					v := s.(*ast.ValueSpec)
					if len(v.Values) > 0 {
						last = v.Values
					}
					for k, name := range v.Names {
						if k < len(last) {
							if c := p.eval(last[k], i); c != nil {
								p.consts[name.Name] = c
							}
						}
					}
				}
				return true
			})
		}
	}
	return p, nil
}

func (f *file) rewritten() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		return a.rank < b.rank
	})
	var out []byte
	at := 0
	for _, e := range f.edits {
		out = append(out, f.src[at:e.pos]...)
		out = append(out, e.text...)
		at = e.pos
	}
	return append(out, f.src[at:]...)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	repo, out, harness := os.Args[1], os.Args[2], os.Args[3]
	repl := map[string]string{}
	if len(os.Args) > 4 { // an overlay that goes in as well
		var o struct{ Replace map[string]string }
		b, err := os.ReadFile(os.Args[4])
		must(err)
		must(json.Unmarshal(b, &o))
		for k, v := range o.Replace {
			repl[k] = v
		}
	}
	all := map[string][]item{}
	db := newBag()
	var reg strings.Builder
	reg.WriteString("package main\n\nimport (\n")
	for _, d := range dirs {
		fmt.Fprintf(&reg, "\tcov_%s %s\n", d, strconv.Quote("github.com/mearaj/bips/"+d))
	}
	reg.WriteString(")\n\nfunc init() {\n")
	for _, d := range dirs {
		p, err := load(repo, d)
		must(err)
		for _, f := range p.files {
			for _, decl := range f.ast.Decls {
				switch x := decl.(type) {
				case *ast.FuncDecl:
					if x.Body == nil {
						continue
					}
					name := x.Name.Name
					if x.Recv != nil && len(x.Recv.List) > 0 {
						name = strings.TrimPrefix(p.text(f, x.Recv.List[0].Type), "*") + "." + name
					}
					p.instrument(f, name, x.Body)
					p.gather(x.Body, db)
				case *ast.GenDecl:
					if x.Tok == token.CONST || x.Tok == token.VAR {
						for _, s := range x.Specs {
							v := s.(*ast.ValueSpec)
							for _, e := range v.Values {
								if x.Tok == token.CONST || p.off(e.End())-p.off(e.Pos()) < 300 {
									p.gather(e, db)
								}
							}
						}
					}
				}
			}
			dst := filepath.Join(out, d+"_"+filepath.Base(f.path))
			must(os.WriteFile(dst, f.rewritten(), 0o644))
			repl[f.path] = dst
		}
		helper := filepath.Join(out, d+"_zz_verif_cov.go")
		must(os.WriteFile(helper, []byte(fmt.Sprintf(`package %s

// VerifMarks tell what has happened.
var VerifMarks [%d]byte

func verifHit(i int) {
	if VerifMarks[i] == 0 {
		VerifMarks[i] = 1
	}
}

func verifCond(i int, c bool) bool {
	if !c {
		i++
	}
	if VerifMarks[i] == 0 {
		VerifMarks[i] = 1
	}
	return c
}
`, p.name, len(p.items)+1)), 0o644))
		repl[filepath.Join(repo, d, "zz_verif_cov.go")] = helper
		fmt.Fprintf(&reg, "\tcovMarks[%q] = cov_%s.VerifMarks[:]\n", d, d)
		all[d] = p.items
	}
	reg.WriteString("}\n")
	must(os.WriteFile(filepath.Join(out, "zz_cov.go"), []byte(reg.String()), 0o644))
	repl[filepath.Join(harness, "zz_cov.go")] = filepath.Join(out, "zz_cov.go")
	write := func(name string, v any) {
		b, err := json.MarshalIndent(v, "", " ")
		must(err)
		must(os.WriteFile(filepath.Join(out, name), b, 0o644))
	}
	write("overlay.json", map[string]any{"Replace": repl})
	write("items.json", all)
	var d dict
	d.Nums, d.Strs = db.sorted()
	write("dict.json", d)
}
