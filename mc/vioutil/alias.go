// Code generated by tools/genalias; DO NOT EDIT.

package vioutil

import "io/ioutil"

var ReadDir = ioutil.ReadDir
