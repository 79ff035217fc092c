// Package vjson replaces encoding/json: encoders are marked as readers of every map they reach.
package vjson

import (
	"bytes"
	"encoding"
	"encoding/json"
	"io"
	"reflect"

	"gzmc/vs"
)

type (
	Marshaler             = json.Marshaler
	Unmarshaler           = json.Unmarshaler
	RawMessage            = json.RawMessage
	Decoder               = json.Decoder
	Number                = json.Number
	Delim                 = json.Delim
	Token                 = json.Token
	SyntaxError           = json.SyntaxError
	UnmarshalTypeError    = json.UnmarshalTypeError
	InvalidUnmarshalError = json.InvalidUnmarshalError
	MarshalerError        = json.MarshalerError
)

var (
	Unmarshal  = json.Unmarshal
	NewDecoder = json.NewDecoder
	Indent     = json.Indent
	Compact    = json.Compact
	HTMLEscape = json.HTMLEscape
	Valid      = json.Valid
)

var mt = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
var tt = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()

func stop(t reflect.Type) bool {
	return t.Implements(mt) || reflect.PointerTo(t).Implements(mt) || t.Implements(tt)
}

func Marshal(v any) ([]byte, error) {
	vs.DeepRead(v, stop)
	return json.Marshal(v)
}

func MarshalIndent(v any, p, i string) ([]byte, error) {
	vs.DeepRead(v, stop)
	return json.MarshalIndent(v, p, i)
}

type Encoder struct{ *json.Encoder }

func NewEncoder(w io.Writer) *Encoder { return &Encoder{json.NewEncoder(w)} }
func (e *Encoder) Encode(v any) error {
	vs.DeepRead(v, stop)
	return e.Encoder.Encode(v)
}

var _ = bytes.NewReader
