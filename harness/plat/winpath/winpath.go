// Package winpath stands in for path/filepath as Windows would have it, for the functions a library of keys and paths could plausibly call.
package winpath

import (
	"path"
	"strings"
)

const (
	Separator     = '\\'
	ListSeparator = ';'
)

func ToSlash(p string) string   { return strings.ReplaceAll(p, `\`, "/") }
func FromSlash(p string) string { return strings.ReplaceAll(p, "/", `\`) }
func Clean(p string) string     { return FromSlash(path.Clean(ToSlash(p))) }
func Base(p string) string      { return FromSlash(path.Base(ToSlash(p))) }
func Dir(p string) string       { return FromSlash(path.Dir(ToSlash(p))) }
func Ext(p string) string       { return path.Ext(ToSlash(p)) }
func IsAbs(p string) bool       { return false }
func VolumeName(string) string  { return "" }
func Join(e ...string) string {
	for i := range e {
		e[i] = ToSlash(e[i])
	}
	return FromSlash(path.Join(e...))
}
func Split(p string) (string, string) {
	i := strings.LastIndexAny(p, `\/`)
	return p[:i+1], p[i+1:]
}
func SplitList(p string) []string {
	if p == "" {
		return []string{}
	}
	return strings.Split(p, ";")
}
func Match(pattern, name string) (bool, error) { return path.Match(ToSlash(pattern), ToSlash(name)) }
