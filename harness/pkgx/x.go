// Package pkgx calls monkit from another package, from functions of
// different shapes.
package pkgx

import (
	"context"

	"github.com/spacemonkeygo/monkit/v3"
)

type T struct{ R *monkit.Registry }

// Scope asks for the scope of this package from a method.
//
//go:noinline
func (t *T) Scope() *monkit.Scope { return t.R.Package() }

// Inlinable asks for it from a function the compiler may inline.
func Inlinable(r *monkit.Registry) *monkit.Scope { return r.Package() }

//go:noinline
func DefaultScope() *monkit.Scope { return monkit.Package() }

func DefaultInlinable() *monkit.Scope { return monkit.Package() }

// Closure asks for it from inside a function literal.
//
//go:noinline
func Closure(r *monkit.Registry) *monkit.Scope {
	f := func() *monkit.Scope { return r.Package() }
	return f()
}

type task = monkit.Task

// Tasks of a scope, named after the function that runs them.
type Named struct {
	Work task
	Meth task
	Clos task
}

func New(s *monkit.Scope) *Named {
	return &Named{Work: s.Task(), Meth: s.Task(monkit.NewSeriesTag("k", "v")), Clos: s.Task()}
}

//go:noinline
func (n *Named) DoWork(ctx context.Context) (out context.Context) {
	defer n.Work(&ctx)(nil)
	return ctx
}

//go:noinline
func Plain(n *Named, ctx context.Context) context.Context {
	defer n.Meth(&ctx)(nil)
	return ctx
}

// Once runs a task declared in place.
//
//go:noinline
func InPlace(s *monkit.Scope, ctx context.Context) context.Context {
	defer s.Task()(&ctx)(nil)
	return ctx
}

//go:noinline
func FuncHere(s *monkit.Scope) *monkit.Func { return s.Func() }
