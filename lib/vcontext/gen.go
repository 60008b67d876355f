// Code generated from the exported API of context; DO NOT EDIT.

package vcontext

import real "context"

type CancelCauseFunc = real.CancelCauseFunc
type CancelFunc = real.CancelFunc

var Canceled = real.Canceled

type Context = real.Context

var DeadlineExceeded = real.DeadlineExceeded
var WithValue = real.WithValue
