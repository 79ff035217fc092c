// Code generated by tools/genalias; DO NOT EDIT.

package vjson

import "encoding/json"

var CallMethodsWithLegacySemantics = json.CallMethodsWithLegacySemantics
var DefaultOptionsV1 = json.DefaultOptionsV1
var FormatByteArrayAsArray = json.FormatByteArrayAsArray
var FormatBytesWithLegacySemantics = json.FormatBytesWithLegacySemantics
var FormatDurationAsNano = json.FormatDurationAsNano

type InvalidUTF8Error = json.InvalidUTF8Error

var MatchCaseSensitiveDelimiter = json.MatchCaseSensitiveDelimiter
var MergeWithLegacySemantics = json.MergeWithLegacySemantics
var OmitEmptyWithLegacySemantics = json.OmitEmptyWithLegacySemantics

type Options = json.Options

var ParseBytesWithLooseRFC4648 = json.ParseBytesWithLooseRFC4648
var ParseTimeWithLooseRFC3339 = json.ParseTimeWithLooseRFC3339
var ReportErrorsWithLegacySemantics = json.ReportErrorsWithLegacySemantics
var StringifyWithLegacySemantics = json.StringifyWithLegacySemantics
var UnmarshalArrayFromAnyLength = json.UnmarshalArrayFromAnyLength

type UnmarshalFieldError = json.UnmarshalFieldError
type UnsupportedTypeError = json.UnsupportedTypeError
type UnsupportedValueError = json.UnsupportedValueError
