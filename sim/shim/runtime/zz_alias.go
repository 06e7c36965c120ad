// Generated by zrw -genshim. DO NOT EDIT.

package runtime

import real "runtime"

type BlockProfileRecord = real.BlockProfileRecord
type Cleanup = real.Cleanup
var MemProfileRate = real.MemProfileRate
type MemProfileRecord = real.MemProfileRecord
type PanicNilError = real.PanicNilError
type Pinner = real.Pinner
type StackRecord = real.StackRecord
type TypeAssertionError = real.TypeAssertionError
