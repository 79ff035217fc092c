// Code generated by tools/genalias; DO NOT EDIT.

package vtime

import "time"

var FixedZone = time.FixedZone

const Friday = time.Friday

var LoadLocation = time.LoadLocation
var LoadLocationFromTZData = time.LoadLocationFromTZData

const Monday = time.Monday

var ParseInLocation = time.ParseInLocation

const RFC1123Z = time.RFC1123Z
const RFC822Z = time.RFC822Z
const RFC850 = time.RFC850
const RubyDate = time.RubyDate
const Saturday = time.Saturday
const Sunday = time.Sunday
const Thursday = time.Thursday
const Tuesday = time.Tuesday
const Wednesday = time.Wednesday
