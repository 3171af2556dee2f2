// +build use_int32

package clipper

type CInt int32

const loRange CInt = 46340
const hiRange CInt = 46340
