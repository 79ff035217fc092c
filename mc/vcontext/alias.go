// Code generated by tools/genalias; DO NOT EDIT.

package vcontext

import "context"

var AfterFunc = context.AfterFunc

type CancelCauseFunc = context.CancelCauseFunc

var Cause = context.Cause
var WithCancelCause = context.WithCancelCause
var WithDeadlineCause = context.WithDeadlineCause
var WithTimeoutCause = context.WithTimeoutCause
var WithoutCancel = context.WithoutCancel
