// Package cublas imitates the handle of gorgonia.org/cu/blas.
package cublas

import (
	"gonum.org/v1/gonum/blas/gonum"
	"gorgonia.org/gorgonia/zzverif/cu"
)

// Standard computes on the host.
type Standard struct {
	gonum.Implementation
	open bool
	e    error
}

type ConsOpt func(*Standard)

func WithContext(ctx *cu.BatchedContext) ConsOpt { return func(*Standard) {} }

func (impl *Standard) Init(opts ...ConsOpt) error {
	if cu.Fails("blas") {
		return cu.ErrDevice
	}
	cu.Handles("blas", 1)
	impl.open = true
	for _, o := range opts {
		o(impl)
	}
	return nil
}

func (impl *Standard) Err() error { return impl.e }

func (impl *Standard) Close() error {
	if !impl.open {
		return nil
	}
	if cu.Fails("blas-close") {
		return cu.ErrDevice
	}
	cu.Handles("blas", -1)
	impl.open = false
	return nil
}
