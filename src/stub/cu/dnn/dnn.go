// Package cudnn imitates the handle of gorgonia.org/cu/dnn.
package cudnn

import "gorgonia.org/gorgonia/zzverif/cu"

// Context is a handle of the library.
type Context struct{ open bool }

func NewContext() *Context {
	cu.Handles("dnn", 1)
	return &Context{open: true}
}

func (c *Context) Close() error {
	if !c.open {
		return nil
	}
	if cu.Fails("dnn-close") {
		return cu.ErrDevice
	}
	cu.Handles("dnn", -1)
	c.open = false
	return nil
}
