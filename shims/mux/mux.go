// Package mux is a stand-in for github.com/gorilla/mux: routers whose routes
// match the whole decoded path against a template with {name} and
// {name:regexp} variables, in the order they were added, after redirecting
// unclean paths.
package mux

import (
	"context"
	"net/http"
	"path"
	"regexp"
	"strings"
)

type varsKey struct{}

// Vars returns the path variables of a request.
func Vars(r *http.Request) map[string]string {
	if v, ok := r.Context().Value(varsKey{}).(map[string]string); ok {
		return v
	}
	return nil
}

// Router dispatches requests.
type Router struct {
	NotFoundHandler http.Handler
	routes          []*Route
}

// Route is one entry of a Router.
type Route struct {
	re      *regexp.Regexp
	names   []string
	h       http.Handler
	methods map[string]bool
}

// NewRouter returns an empty router.
func NewRouter() *Router { return &Router{} }

// HandleFunc adds a route.
func (r *Router) HandleFunc(tpl string, f func(http.ResponseWriter, *http.Request)) *Route {
	return r.Handle(tpl, http.HandlerFunc(f))
}

// Handle adds a route.
func (r *Router) Handle(tpl string, h http.Handler) *Route {
	rt := &Route{h: h}
	var b strings.Builder
	b.WriteString("^")
	for tpl != "" {
		i := strings.IndexByte(tpl, '{')
		if i < 0 {
			b.WriteString(regexp.QuoteMeta(tpl))
			break
		}
		b.WriteString(regexp.QuoteMeta(tpl[:i]))
		d, j := 0, i
		for ; j < len(tpl); j++ {
			if tpl[j] == '{' {
				d++
			} else if tpl[j] == '}' {
				d--
				if d == 0 {
					break
				}
			}
		}
		name, pat, ok := strings.Cut(tpl[i+1:j], ":")
		if !ok {
			pat = "[^/]+"
		}
		rt.names = append(rt.names, name)
		b.WriteString("(" + pat + ")")
		tpl = tpl[j+1:]
	}
	b.WriteString("$")
	rt.re = regexp.MustCompile(b.String())
	r.routes = append(r.routes, rt)
	return rt
}

// Methods restricts a route.
func (rt *Route) Methods(ms ...string) *Route {
	if rt.methods == nil {
		rt.methods = map[string]bool{}
	}
	for _, m := range ms {
		rt.methods[strings.ToUpper(m)] = true
	}
	return rt
}

func cleanPath(p string) string {
	if p == "" {
		return "/"
	}
	if p[0] != '/' {
		p = "/" + p
	}
	np := path.Clean(p)
	if p[len(p)-1] == '/' && np != "/" {
		np += "/"
	}
	return np
}

// ServeHTTP dispatches.
func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	if p := cleanPath(req.URL.Path); p != req.URL.Path {
		u := *req.URL
		u.Path = p
		w.Header().Set("Location", u.String())
		w.WriteHeader(http.StatusMovedPermanently)
		return
	}
	badMethod := false
	for _, rt := range r.routes {
		m := rt.re.FindStringSubmatchIndex(req.URL.Path)
		if m == nil {
			continue
		}
		if rt.methods != nil && !rt.methods[req.Method] {
			badMethod = true
			continue
		}
		vars := map[string]string{}
		// Groups inside a variable's own pattern are skipped by width.
		g := 1
		for _, n := range rt.names {
			if m[2*g] >= 0 {
				vars[n] = req.URL.Path[m[2*g]:m[2*g+1]]
			}
			end := m[2*g+1]
			g++
			for g < len(m)/2 && m[2*g] >= 0 && m[2*g+1] <= end {
				g++
			}
		}
		rt.h.ServeHTTP(w, req.WithContext(context.WithValue(req.Context(), varsKey{}, vars)))
		return
	}
	if badMethod {
		w.WriteHeader(http.StatusMethodNotAllowed)
		return
	}
	if r.NotFoundHandler != nil {
		r.NotFoundHandler.ServeHTTP(w, req)
		return
	}
	http.NotFound(w, req)
}
