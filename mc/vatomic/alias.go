// Code generated by tools/genalias; DO NOT EDIT.

package vatomic

import "sync/atomic"

var AddUintptr = atomic.AddUintptr
var AndInt32 = atomic.AndInt32
var AndInt64 = atomic.AndInt64
var AndUint32 = atomic.AndUint32
var AndUint64 = atomic.AndUint64
var AndUintptr = atomic.AndUintptr
var CompareAndSwapPointer = atomic.CompareAndSwapPointer
var CompareAndSwapUintptr = atomic.CompareAndSwapUintptr
var LoadUintptr = atomic.LoadUintptr
var OrInt32 = atomic.OrInt32
var OrInt64 = atomic.OrInt64
var OrUint32 = atomic.OrUint32
var OrUint64 = atomic.OrUint64
var OrUintptr = atomic.OrUintptr
var StoreUintptr = atomic.StoreUintptr
var SwapPointer = atomic.SwapPointer
var SwapUintptr = atomic.SwapUintptr

type Uintptr = atomic.Uintptr
