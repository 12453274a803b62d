package h

import (
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"github.com/masagroup/soft.go/zz_verif/nd"
)

func init() {
	All["H_URIFormat"] = entry{nil, H_URIFormat}
	All["H_URIParse"] = entry{nil, H_URIParse}
	All["H_URINormalize"] = entry{nil, H_URINormalize}
	All["H_URIResolve"] = entry{nil, H_URIResolve}
	All["H_URIRelativize"] = entry{nil, H_URIRelativize}
	All["H_KnownURIEscape"] = entry{nil, H_KnownURIEscape}
}

// uparts are the components of a uri, as RFC 3986 splits it.
type uparts struct {
	scheme, user, pass, host, port, path, query, frag string
}

func cut(s string, c byte) (string, string, bool) {
	if i := strings.IndexByte(s, c); i >= 0 {
		return s[:i], s[i+1:], true
	}
	return s, "", false
}

// split is the reference parser: RFC 3986 appendix B, with the authority
// split into user, password, host and port.
func split(s string) (p uparts) {
	s, p.frag, _ = cut(s, '#')
	s, p.query, _ = cut(s, '?')
	if i := strings.IndexByte(s, ':'); i > 0 && strings.IndexByte(s[:i], '/') < 0 {
		p.scheme, s = s[:i], s[i+1:]
	}
	if strings.HasPrefix(s, "//") {
		a := s[2:]
		s = ""
		if i := strings.IndexByte(a, '/'); i >= 0 {
			a, s = a[:i], a[i:]
		}
		if i := strings.LastIndexByte(a, '@'); i >= 0 {
			p.user, p.pass, _ = cut(a[:i], ':')
			a = a[i+1:]
		}
		if i := strings.LastIndexByte(a, ':'); i >= 0 && strings.IndexByte(a[i:], ']') < 0 {
			p.host, p.port = a[:i], a[i+1:]
		} else {
			p.host = a
		}
	}
	p.path = s
	return
}

func (p uparts) authority() string {
	a := p.host
	if p.user != "" || p.pass != "" {
		u := p.user
		if p.pass != "" {
			u += ":" + p.pass
		}
		a = u + "@" + a
	}
	if p.port != "" {
		a += ":" + p.port
	}
	return a
}

func (p uparts) String() string {
	s := ""
	if p.scheme != "" {
		s = p.scheme + ":"
	}
	if a := p.authority(); a != "" {
		s += "//" + a
	}
	if strings.HasPrefix(p.path, "//") && p.authority() == "" {
		s += "//"
	}
	s += p.path
	if p.query != "" {
		s += "?" + p.query
	}
	if p.frag != "" {
		s += "#" + p.frag
	}
	return s
}

func (p uparts) check(u *ecore.URI, what string) {
	nd.Check(u.Scheme() == p.scheme, what+": scheme")
	nd.Check(u.Username() == p.user, what+": user name")
	nd.Check(u.Password() == p.pass, what+": password")
	nd.Check(u.Host() == p.host, what+": host")
	nd.Check(u.Port() == p.port, what+": port")
	nd.Check(u.Path() == p.path, what+": path")
	nd.Check(u.Query() == p.query, what+": query")
	nd.Check(u.Fragment() == p.frag, what+": fragment")
	if p.host != "" {
		nd.Check(u.Authority() == p.authority(), what+": authority")
	} else {
		nd.Check(u.Authority() == "", what+": authority without host")
	}
	nd.Check(u.IsAbsolute() == (p.scheme != ""), what+": absolute")
}

func (p uparts) uri() *ecore.URI {
	return ecore.NewURIFromComponents(p.scheme, p.user, p.pass, p.host, p.port, p.path, p.query, p.frag)
}

func str(name string, max int, alpha string) string {
	return nd.Str(name, intn(name+".len", max+1), alpha)
}

func opt(name string, v ...string) string { return v[intn(name, len(v))] }

// somePart makes components which a uri can have.
func someParts(n int, alpha string) (p uparts) {
	p.scheme = opt("scheme", "", "h", "file")
	switch intn("auth", 6) {
	case 1:
		p.host = str("host", n, "hf.")
		nd.Assume(p.host != "")
	case 2:
		p.host, p.port = nd.Str("host", 1, "h8."), opt("port", "8", "80")
		p.user = opt("user", "", "h", "f8")
	case 3:
		p.host, p.user, p.pass = opt("host", "h", "u"), opt("user", "", "h", "u"), opt("pass", "h", "p")
	case 4:
		p.host, p.port = "[::1]", opt("port", "", "80")
	case 5:
		p.user = "u"
	}
	p.path = str("path", n, alpha)
	p.query = opt("query", "", "h=/?:@&")
	p.frag = opt("frag", "", "//@h.1/?:")
	auth := p.authority() != ""
	// what the components can be together (RFC 3986, 3.3)
	if auth {
		nd.Assume(p.path == "" || p.path[0] == '/')
	}
	return
}

// H_URIFormat: components survive being written as a string, whichever way
// the uri is made.
func H_URIFormat() {
	p := someParts(nd.Param("n"), "h/.")
	if p.scheme == "" {
		// the first segment of a relative path has no colon
		nd.Assume(strings.IndexByte(p.path, ':') < 0)
	}
	var u *ecore.URI
	if intn("how", 2) == 0 {
		u = p.uri()
		p.check(u, "uri from components")
		q := split(u.String())
		if p.scheme != "" && p.path != "" && p.path[0] == '/' || p.scheme == "" {
			nd.Check(q == p, "a uri from components is written with its components")
		}
	} else {
		s := p.String()
		// schemeless "////a" is not split by the parser
		nd.Assume(p.scheme != "" || !strings.HasPrefix(s, "///"))
		var err error
		u, err = ecore.ParseURI(s)
		nd.Check(err == nil, "a well-formed uri is accepted")
		p.check(u, "parsed uri")
		nd.Check(u.String() == s, "a parsed uri is written as it was read")
	}
	v := ecore.NewURIBuilder(u).URI()
	p.check(v, "copied uri")
	nd.Check(u.Equals(u) && !u.Equals(nil), "a uri equals itself")
	// changing a component
	q := p
	q.frag = ""
	q.check(u.TrimFragment(), "uri without fragment")
	q = p
	q.query = ""
	q.check(u.TrimQuery(), "uri without query")
	q = p
	q.frag = "x"
	q.check(ecore.NewURIBuilder(u).SetFragment("x").URI(), "uri with another fragment")
	q = p
	q.path = "/x"
	q.check(ecore.NewURIBuilder(u).SetPath("/x").URI(), "uri with another path")
	p.check(u, "uri after a change to a copy")
	nd.Reach("end")
}

// H_URIParse: any string that is accepted is split as RFC 3986 says.
func H_URIParse() {
	s := nd.Str("s", intn("len", nd.Param("n")+1), "h/:?#@8")
	nd.Assume(!strings.HasPrefix(s, "///"))
	u, err := ecore.ParseURI(s)
	if err != nil {
		nd.Check(u == nil && ecore.NewURI(s) == nil, "no uri with an error")
		nd.Reach("rejected")
		return
	}
	nd.Check(u.String() == s, "a parsed uri is written as it was read")
	p := split(s)
	// a host has no colon unless it is in brackets (the parser accepts more)
	nd.Assume(strings.IndexByte(p.host, ':') < 0)
	p.check(u, "parsed uri")
	v := ecore.NewURIBuilder(u).URI()
	p.check(v, "copied uri")
	if p.scheme == "" || strings.HasPrefix(p.path, "/") {
		nd.Check(split(v.String()) == p, "a copied uri is written with the same components")
	}
	nd.Check(u.Equals(ecore.NewURI(s)), "the same string is the same uri")
	nd.Check(u.IsEmpty() == (s == ""), "only the empty string is the empty uri")
	nd.Reach("accepted")
}

// normPath is the reference for path normalization: repeated slashes and "."
// segments disappear, ".." takes the segment before it, and a trailing slash
// stays (also in place of a removed last segment).
func normPath(p string) string {
	if p == "" {
		return ""
	}
	abs := p[0] == '/'
	var segs []string
	dir := false
	rest := p
	for rest != "" {
		var s string
		var more bool
		s, rest, more = cut(rest, '/')
		dir = more
		switch {
		case s == "":
			dir = true
		case s == ".":
			dir = true
		case s == ".." && len(segs) > 0 && segs[len(segs)-1] != "..":
			segs = segs[:len(segs)-1]
			dir = true
		default:
			segs = append(segs, s)
		}
	}
	r := strings.Join(segs, "/")
	if abs {
		r = "/" + r
	}
	if dir && len(segs) > 0 {
		r += "/"
	}
	return r
}

func hasDots(p string) bool {
	for _, s := range strings.Split(p, "/") {
		if s == "." || s == ".." {
			return true
		}
	}
	return false
}

func H_URINormalize() {
	p := uparts{scheme: opt("scheme", "", "h"), path: str("path", nd.Param("n"), nd_alpha())}
	if p.scheme == "" {
		c, _, _ := cut(p.path, '/')
		nd.Assume(strings.IndexByte(c, ':') < 0)
	} else {
		p.host = "f"
		nd.Assume(p.path == "" || p.path[0] == '/')
		p.query, p.frag = "q", "f"
	}
	u := p.uri()
	v := u.Normalize()
	q := p
	q.path = v.Path()
	q.check(v, "normalized uri")
	want := normPath(p.path)
	if q.path != want {
		// a segment with a colon that comes first is protected
		nd.Check(strings.IndexByte(want, ':') >= 0 && q.path == "./"+want, "the normalized path is the canonical form of the path")
	} else {
		nd.Check(q.path == want, "the normalized path is the canonical form of the path")
	}
	nd.Check(v.Normalize().Equals(v), "normalizing twice changes nothing")
	nd.Reach("end")
}

func nd_alpha() string { return []string{"./a", "./a:"}[nd.Param("alpha")] }

// resolveRef is RFC 3986 section 5.2.2 (with the path left to be normalized).
func resolveRef(b, r uparts) uparts {
	if r.scheme != "" {
		return r
	}
	if r.host != "" || r.user != "" || r.port != "" {
		r.scheme = b.scheme
		return r
	}
	q := b
	q.frag = r.frag
	if r.path == "" {
		if r.query != "" {
			q.query = r.query
		}
		return q
	}
	q.query = r.query
	if r.path[0] == '/' {
		q.path = r.path
	} else {
		q.path = b.path[:strings.LastIndexByte(b.path, '/')+1] + r.path
	}
	return q
}

func (p uparts) norm() uparts {
	p.path = normPath(p.path)
	return p
}

func (p uparts) normEq(u *ecore.URI, what string) {
	n := p.norm()
	n.path = u.Path()
	n.check(u, what)
	nd.Check(normPath(u.Path()) == normPath(p.path), what+": path")
}

// someRef makes the components of an absolute or relative reference.
func someRef(pre string, n int, alpha string, base bool) (p uparts) {
	if base || intn(pre+"abs", 2) == 0 {
		p.scheme = "h"
	}
	if intn(pre+"auth", 2) == 1 {
		p.host = opt(pre+"host", "h", "f")
		p.port = opt(pre+"port", "", "8")
	}
	p.path = str(pre+"path", n, alpha)
	if !base {
		p.query = opt(pre+"query", "", "q")
		p.frag = opt(pre+"frag", "", "f")
	} else {
		p.query = opt(pre+"query", "", "b")
	}
	if p.host != "" {
		nd.Assume(p.path == "" || p.path[0] == '/')
	}
	nd.Assume(!strings.HasPrefix(p.path, "//"))
	return
}

func H_URIResolve() {
	n := nd.Param("n")
	b := someRef("b", n, "./a", true)
	r := someRef("r", n, "./c", false)
	if intn("rel", 2) == 1 {
		b.scheme, b.host, b.port = "", "", ""
	}
	nd.Assume(b.path != "")
	got := b.uri().Resolve(r.uri())
	if r == (uparts{}) {
		// the empty reference is the base
		nd.Reach("empty")
	}
	resolveRef(b, r).normEq(got, "resolved uri")
	nd.Reach("end")
}

// H_URIRelativize: a uri made relative to a base, written as a string, and
// resolved against the base is the uri again.
func H_URIRelativize() {
	n := nd.Param("n")
	b := someRef("b", n, "./a", true)
	r := someRef("r", n, "./ac:"[:3+nd.Param("alpha")], false)
	if intn("rel", 2) == 1 {
		b.scheme, b.host, b.port = "", "", ""
		r.scheme, r.host, r.port = "", "", ""
		// an absolute and a relative path have no common base
		nd.Assume(b.path == "" || r.path == "" || (b.path[0] == '/') == (r.path[0] == '/'))
	} else {
		nd.Assume(r.scheme != "")
	}
	if r.scheme == "" {
		c, _, _ := cut(r.path, '/')
		nd.Assume(strings.IndexByte(c, ':') < 0)
	}
	nd.Assume(b.path != "" && r.path != "")
	// "//" cannot start a path without authority
	nd.Assume(!strings.HasPrefix(r.path, "//"))
	bn, rn := normPath(b.path), normPath(r.path)
	if strings.HasPrefix(bn, "../") {
		// nothing leads back from an unknown directory
		nd.Assume(strings.HasPrefix(rn, "../"))
	}
	if bn == ".." {
		nd.Assume(r.path[0] != '/')
	}
	bu, ru := b.uri(), r.uri()
	rel := bu.Relativize(ru)
	s := rel.String()
	q := split(s)
	q.check(rel, "relative uri")
	if got := bu.Resolve(rel); got != nil {
		r.normEq(got, "resolved relative uri")
	}
	nd.Reach("end")
}

func H_KnownURIEscape() {
	u := ecore.NewURI("h://f/a%3Fb%20c")
	v := u.TrimFragment()
	p := split(v.String())
	nd.KnownCheck(p.path == "/a%3Fb%20c" && p.query == "", "uri-percent-encoding", "a uri with percent-encoded characters can be rebuilt from its components")
	nd.Reach("end")
}
